"""C26: parsing Received headers is total and loses no relay."""
import itertools
import re

from mc import env

TECHNIQUE = "exhaustive enumeration of header fields over a grammar of formats, of every truncation and token edit of each, and of sequences of headers, on the real parser, against the values the header was made of"
LEVEL_NOTE = "21 MTA formats x all field values (about 9000 headers, folded and not), every truncation, deletion, doubling, swap and replacement of tokens (pairs in thorough) with 25 damaged tokens, and all sequences of up to 4 headers out of 9."
ASSUMPTIONS = ["envelope senders with = are cut at the last one (pinned by the existing tests for VERP senders)", "a HELO that is an address literal is not used by a peer with a private address"]

EXIM = " by {by} with {proto} (Exim 4.80) (envelope-from <{envfrom}>) id {id} for x@y.example"
FORMATS = {
    "postfix": "{helo} ({rdns} [{ip}]) by {by} (Postfix) with {proto} id {id}",
    "postfix-auth": "{helo} ({rdns} [{ip}]) (Authenticated sender: u) by {by} (Postfix) with {proto} id {id}",
    "postfix-envelope": "{helo} ({rdns} [{ip}]) by {by} (Postfix) with {proto} id {id} (envelope-from <{envfrom}>)",
    "exim": "{rdns} ([{ip}] helo={helo})" + EXIM,
    "exim-same": "{rdns} ([{ip}])" + EXIM,
    "exim-port": "{rdns} ([{ip}]:1234 helo={helo})" + EXIM,
    "exim-ip": "[{ip}] (helo={helo})" + EXIM,
    "exim-ident": "[{ip}] (ident={ident})" + EXIM,
    "exim-helo-ident": "[{ip}] (helo={helo} ident={ident})" + EXIM,
    "exim-same-ident": "{rdns} ([{ip}] ident={ident})" + EXIM,
    "exim-all": "{rdns} ([{ip}] helo={helo} ident={ident})" + EXIM,
    "sendmail": "{helo} ({rdns} [{ip}]) by {by} (8.12.10/8.12.9) with {proto} id {id} for <x@y.example>",
    "sendmail-auth": "{helo} ({rdns} [{ip}]) (authenticated bits=0) by {by} (8.12.10/8.12.9) with {proto} id {id} for <x@y.example>",
    "sendmail-ident": "{helo} ({ident}@{rdns} [{ip}]) by {by} (8.12.10/8.12.9) with {proto} id {id} for <x@y.example>",
    "sendmail-nordns": "{helo} ([{ip}]) by {by} (8.12.10/8.12.9) with {proto} id {id} for <x@y.example>",
    "sendmail-forged": "{helo} ({rdns} [{ip}] (may be forged)) by {by} (8.12.10/8.12.9) with {proto} id {id} for <x@y.example>",
    "exchange": "{rdns} ({ip}) by {by} (172.17.210.2) with Microsoft SMTP Server (TLS) id {id}",
    "iis": "{helo} ([{ip}]) by {by} with Microsoft SMTPSVC(5.0.2195.6713)",
    "qmail": "{rdns} (HELO {helo}) ({ip}) by {by} with SMTP",
    "qmail-ident": "{rdns} (HELO {helo}) ({ident}@{ip}) by {by} with SMTP",
    "google": "{helo} ({rdns} [{ip}]) by {by} with {proto} id {id} for <x@y.example> (version=TLS1_2 cipher=EC bits=128/128)",
}
HELO_IS_RDNS = ("exim-same", "exim-same-ident", "exchange")
AUTH = {"postfix-auth": "Postfix", "sendmail-auth": "Sendmail"}
IPS = {"45.1.2.3": None, "8.8.8.8": None, "10.1.2.3": None, "172.16.5.5": None, "192.168.250.199": None, "255.254.253.252": None, "2001:db8::1": None, "IPv6:2001:db8::1": "2001:db8::1", "IPv6:2001:DB8::A1": "2001:db8::a1",
       "::ffff:45.1.2.3": "45.1.2.3", "IPv6:::ffff:45.1.2.3": "45.1.2.3", "::ffff:10.1.2.3": "10.1.2.3", "IPv6:::FFFF:192.168.250.199": "192.168.250.199", "::ffff:127.0.0.1": "127.0.0.1", "1::ffff:2": None, "::1": None, "127.0.0.1": None, "fe80::1": None, "2001:db8:1:2:3:4:5:6": None, "2001:db8:1:2:3:4:5::": "2001:db8:1:2:3:4:5::"}
VALUES = dict(helo=["helo.example.com", "h", "authenticated.example", "xn--e1.example."], rdns=["r.example.com", "unknown", "with-by.example"], ip=list(IPS), by=["mx.local.example"], id=["X1-a"],
              envfrom=["a@b.example", "a.b+c-d@b.example"], ident=["joe"], proto=["ESMTP", "ESMTPA", "esmtpsa", "SMTP", "ESMTPS"])
SKIP = ["root by server6.example.com with local-generated (Exim 4.80) id 1abp1W for spam@x.example", "cab.example.org [127.0.0.1] by localhost with IMAP (fetchmail-5.9.0) for jm@localhost (single-drop)",
        "faerber.example by slarti.example with BSMTP (rsmtp-qm-ot 0.4) for asrg@x.example", "127.0.0.1 (AVG SMTP 9.0.935 [4365.1.1/10645])", "scanner@lists.example by alpha by uid 7791 with qmail-scanner-1.14 (sa: 2.41. Clear:SA:0(-4.1/5.0):. Processed in 0.2 secs)",
        "DSmith@aol.example by imo-m09.example (mail_out_v34.13.) id 7.53.208064a0 (4394)", "mail pickup service by www.example.com with Microsoft SMTPSVC", "GWGC6-MTA by gc6.example.us with Novell_GroupWise",
        "raptor.example (bala@localhost) by raptor.example (SGI-8.9.3/8.8.7) with ESMTP id KAA14788 for <asrg@example.com>"]
FIELDS = ("ip", "rdns", "helo", "by", "ident", "envfrom", "id", "auth")
DATE = "; Mon, 1 Jan 2018 00:00:00 +0000"
DAMAGE = ["", "(", ")", "[", "]", "()", "[]", "([", "])", "@", "=", "<", ";", "by", "from", "with", "id", "1.2.3", "01.2.3.4", "1.2.3.4.5", "999.1.1.1", "::ffff:abcd", "1:2:3:4:5:6:7:8:9", ":::", "[1.2.3.4]", u"\u00e9", "\t",
          "X-ORIGINATING-IP: 1.2.3.4", "helo=", "HELO", "(authenticated", "(HELO", "\x00", "%s", "{ip}"]


def parse(*headers):
    from oa.received_parser import ReceivedParser
    return ReceivedParser(list(headers)).received


def expect(name, d):
    want = dict.fromkeys(FIELDS, "")
    want.update((k, v) for k, v in d.items() if k in want)
    if want["rdns"] == "unknown":
        want["rdns"] = ""
    want["ip"] = IPS[want["ip"]] or want["ip"]
    if name in HELO_IS_RDNS:
        want["helo"] = d["rdns"]
    want["auth"] = d["proto"] if d.get("proto", "").lower() in ("esmtpa", "esmtpsa") else AUTH.get(name, "")
    return want


def fold(header):
    """As it is folded in transit."""
    return re.sub(r" (?=by|with|\(|id)", "\n\t", header)


def run_fields(case, rec):
    name, ip = case
    fmt = FORMATS[name]
    keys = [k for k in VALUES if "{%s}" % k in fmt]
    for vals in itertools.product(*[VALUES[k] if k != "ip" else [ip] for k in keys]):
        d = dict(zip(keys, vals))
        if d.get("rdns") == "unknown" and name in HELO_IS_RDNS:
            continue
        want = expect(name, d)
        text = "from " + fmt.format(**d) + DATE
        rec.state(text)
        for h in (text, fold(text)):
            rec.step()
            got = parse(h)
            if len(got) != 1:
                rec.fail("%s/lost" % name, "%d relays of %r" % (len(got), h), header=h)
                continue
            bad = [f for f in FIELDS if got[0].get(f) != want[f]]
            if bad:
                rec.fail("%s/%s" % (name, ",".join(bad)), "%r of %r: %r, expected %r" % (bad, h, [got[0].get(f) for f in bad], [want[f] for f in bad]), header=h)
    rec.trace()


def example(name):
    return "from " + FORMATS[name].format(helo="helo.example.com", rdns="r.example.com", ip="45.1.2.3", by="mx.local.example", id="X1", envfrom="a@b.example", ident="joe", proto="ESMTPA") + DATE


def edits(text, double):
    tokens = re.findall(r"\s+|[\[\]()<>;=@]|[^\s\[\]()<>;=@]+", text)
    n = len(tokens)
    for i in range(len(text) + 1):
        yield "cut %d" % i, text[:i]
    for i in range(n):
        yield "delete %d" % i, "".join(tokens[:i] + tokens[i + 1:])
        yield "double %d" % i, "".join(tokens[:i + 1] + tokens[i:])
        if i + 1 < n:
            yield "swap %d" % i, "".join(tokens[:i] + [tokens[i + 1], tokens[i]] + tokens[i + 2:])
        for j, x in enumerate(DAMAGE):
            yield "replace %d %d" % (i, j), "".join(tokens[:i] + [x] + tokens[i + 1:])
            if double:
                for k in range(i + 1, n):
                    yield "replace %d, delete %d by %d" % (i, k, j), "".join(tokens[:i] + [x] + tokens[i + 1:k] + tokens[k + 1:])
    for i in range(0, n, 2):
        for m in (300, 3000):
            yield "long %d %d" % (i, m), "".join(tokens[:i] + [tokens[i] * (m // len(tokens[i]))] + tokens[i + 1:])
            yield "many %d %d" % (i, m), "".join(tokens[:i] + ["(1.2.3.4 " * (m // 9)] + tokens[i + 1:])


def run_damage(case, rec):
    """No damage to a header raises, or changes the relays of its neighbours,
    in the parser or in a message."""
    name, double, part, of = case
    rs = env.build("trusted_networks 45.0.0.0/8\noriginating_ip_headers X-Orig\n")
    above, below = example("postfix"), example("exim")
    one, two = parse(above), parse(below)
    for n, (what, text) in enumerate(edits(example(name) if name != "skip" else "from " + SKIP[0], double)):
        if n % of != part:
            continue
        rec.step()
        rec.state((name, what))
        try:
            got = parse(above, text, below)
        except Exception as e:
            rec.fail("%s/raised" % name, "%s: %r raised by %r" % (what, e, text[:300]), header=text[:2000])
            continue
        if len(got) not in (2, 3) or got[:1] != one or got[-1:] != two:
            rec.fail("%s/neighbours" % name, "%s: neighbours of %r changed: %r" % (what, text[:300], got), header=text[:2000])
        bad = [f for f in FIELDS for r in got if not isinstance(r.get(f), str)]
        if bad:
            rec.fail("%s/field" % name, "%s: fields %r missing" % (what, bad), header=text[:2000])
        if double or "\x00" in text:
            continue
        mail = "Received: %s\nReceived: %s\nReceived: %s\nX-Orig: %s\nX-Orig: 9.9.9.9\nSubject: x\n\ntext\n" % (above, re.sub(r"[\r\n]+", " ", text), below, re.sub(r"[\r\n]+", " ", text))
        try:
            msg = env.message(rs, mail)
            relays = msg.trusted_relays + msg.untrusted_relays
            msg.get_untrusted_ips()
            tags = msg.plugin_tags["RELAYSTRUSTED"]
        except Exception as e:
            rec.fail("%s/message-raised" % name, "%s: %r raised by a message with %r" % (what, e, text[:300]), header=text[:2000])
            continue
        if not tags.startswith("[ ip=45.1.2.3 rdns=r.example.com helo=helo.example.com by=mx.local.example") or relays[-1]["ip"] != "9.9.9.9":
            rec.fail("%s/message-relays" % name, "%s: relays %r" % (what, relays), header=text[:2000])
    rec.trace()


def run_sequence(case, rec):
    """The relays of a message are those of its headers, in their order."""
    headers, want = [], []
    for i, name in enumerate(case):
        ip = "45.1.%d.%d" % (i, len(name))
        if name.startswith("skip"):
            headers.append("from " + SKIP[int(name[4:])])
        elif name == "by":
            headers.append("by mx.local.example with ESMTP id X%d%s" % (i, DATE))
        elif name == "noip":
            headers.append("from h%d by mx.local.example with SMTP id X%d%s" % (i, i, DATE))
        else:
            headers.append("from " + FORMATS[name].format(helo="h%d.example" % i, rdns="r%d.example" % i, ip=ip, by="mx%d.example" % i, id="X%d" % i, envfrom="a%d@b.example" % i, ident="joe", proto="ESMTP") + DATE)
            want.append((ip, "mx%d.example" % i))
    rec.state(case)
    rec.trace()
    rs = env.build("")
    rec.step()
    msg = env.message(rs, "".join("Received: %s\n" % fold(h) for h in headers) + "Subject: x\n\ntext\n")
    got = [(r["ip"], r["by"]) for r in msg.received_headers if r["ip"]]
    rec.check("sequence/%s" % "+".join(case), got, want, headers=headers)
    tags = re.findall(r"ip=(\S*)", msg.plugin_tags["RELAYSUNTRUSTED"])
    rec.check("sequence-tag/%s" % "+".join(case), tags, [w[0] for w in want], headers=headers)
    rec.check("sequence-ips/%s" % "+".join(case), [str(i) for i in msg.get_untrusted_ips()], [w[0] for w in want], headers=headers)


def run_skip(i, rec):
    rec.step()
    rec.state(i)
    rec.check("skip/%d" % i, parse("from " + SKIP[i] + DATE, example("postfix")), parse(example("postfix")), header=SKIP[i])


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    pool = ["postfix", "exim", "sendmail-nordns", "qmail", "exchange", "skip0", "skip5", "by", "noip"]
    of = 24 if deep else 2
    return [
        Space("fields", [(n, ip) for n in FORMATS for ip in IPS], run_fields, "every format with every combination of field values, folded and unfolded", chunk=3),
        Space("skipped", list(range(len(SKIP))), run_skip, "headers that name no relay"),
        Space("damage", [(n, False, p, 2) for n in list(FORMATS) + ["skip"] for p in range(2)], run_damage, "every truncation and token edit of every format", chunk=1, timeout=200),
        Space("sequences", [c for k in range(0, 5 if deep else 4) for c in itertools.product(pool, repeat=k)], run_sequence, "every sequence of headers", chunk=20),
    ] + ([Space("double-damage", [(n, True, p, of) for n in list(FORMATS) for p in range(of)], run_damage, "every pair of token edits", chunk=1, timeout=600)] if deep else [])
