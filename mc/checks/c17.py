"""C17: lazy and non-lazy mode give the same results."""
import itertools
import re

from mc import env, universe

TECHNIQUE = "exhaustive enumeration of messages and ordered pairs of messages x rule orders x options on the real code in both modes, comparing everything a check tells; and of the operations of the cached expressions against the re module"
LEVEL_NOTE = "All rules of all plugins over 60 messages, all ordered pairs (thorough: triples over 16) of messages on one ruleset, all orders of 5 (thorough 7) header rules of one header, under 5 configurations; every method x flag x text of the expression class."
ASSUMPTIONS = ["lazy mode, in which nothing is cached, is the reference"]

VARIANTS = {
    "base": "", "orig": "originating_ip_headers X-Orig\noriginating_ip_headers X-Second\noriginating_ip_headers X-Relay-Countries\n", "newest": "use_newest_received_spf_header 1\n",
    "ignore": "ignore_received_spf_header 1\nadd_header all Orig _RELAYSEXTERNAL_ _LASTEXTERNALIP_\n", "sender": "envelope_sender_header From\nenvelope_sender_header X-Orig\nalways_trust_envelope_sender 1\n",
}
EXTRA_RULES = ["header O_RCV Received =~ /ORIGINATING/", "header O_RCV2 received !~ /45.9/", "header O_X X-ORIG =~ /\\d/", "header O_RC X-Relay-Countries =~ /spammer/", "header O_RCX exists:X-Relay-Countries", "header O_SPFR Received-SPF =~ /^pass/",
               "header O_ALL ALL =~ /ORIG/", "mimeheader O_M Subject =~ /./", "mimeheader O_MC Content-Type:raw =~ /text/", "header O_TO To:addr =~ /^u@/", "header O_TON to:name =~ /U/", "header O_TOR TO:raw =~ /=\\?/", "header O_TOX To =~ /u@/"]


def extra_messages():
    m = {}
    head = "From: A B <a@x.example>\nTo: =?utf-8?q?U=20X?= <u@to.example>\n"
    m["x-rc"] = universe.rcvd(universe.IN, ("m.x.example", "m.x.example", "45.9.2.1", "in.local.example", "x@spf.example")) + "X-Relay-Countries: spammer\n" + head + "Subject: x\n\none\n"
    m["x-orig"] = universe.rcvd(universe.IN, ("m.x.example", "m.x.example", "45.9.2.2", "in.local.example", None)) + "X-Orig: 45.9.2.66\nX-ORIG: 45.9.2.1\nX-Second: 8.8.8.8\n" + head + "Subject: x\n\none\n"
    m["x-spf2"] = universe.rcvd(universe.IN, ("m.x.example", "m.x.example", "45.9.2.3", "in.local.example", "x@h.example")) + \
        "Received-SPF: fail identity=mailfrom; client-ip=45.9.2.3\nReceived-SPF: pass identity=mailfrom; client-ip=45.9.2.3\nReceived-SPF: softfail identity=helo; client-ip=45.9.2.3\n" + head + "Subject: x\n\none\n"
    m["x-dup"] = "Subject: one spam\nsubject: two\nSUBJECT: =?utf-8?q?three?=\nTo: x\n" + head + "From: Name <bad@bad.example>\nReceived: from a\n\nbody\n"
    m["x-mime"] = "Subject: outer\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=b\n\n--b\nContent-Type: text/plain\nSubject: =?utf-8?q?inner?=\n\ntext\n--b\nContent-Type: message/rfc822\n\nSubject: deep\nReceived: from z\n\nin\n--b--\n"
    m["x-orig2"] = "X-Orig: [45.9.2.66]\nX-Orig: junk\n" + head + "Subject: y\n\none\n"
    return m


def pool():
    if not _pool:
        _pool.update(universe.messages())
        _pool.update(extra_messages())
    return _pool


_pool = {}
HEAD_RULES = ["header A1 Subject =~ /spam/", "header A2 Subject:raw =~ /=\\?/", "header A3 SUBJECT !~ /two/", "header A4 subject:addr =~ /./", "header A5 Subject:name =~ /o/", "header A6 exists:Subject", "header A7 ALL =~ /ubject: one/",
              "header A8 eval:check_for_to_in_subject('u')"]


def both(conf):
    """The ruleset of each mode, with a function that selects the mode."""
    import oa.config
    out = []
    for lazy in (True, False):
        oa.config.LAZY_MODE = lazy
        try:
            out.append(env.build(conf))
        finally:
            oa.config.LAZY_MODE = True
    return out


def in_mode(lazy, rs, names):
    import oa.config
    oa.config.LAZY_MODE = lazy
    try:
        out = []
        for n in names:
            universe.world()
            out.append(universe.fingerprint(rs, pool()[n]))
        return out
    finally:
        oa.config.LAZY_MODE = True


def judge(rec, key, sets, names, variant):
    want, got = [in_mode(lazy, rs, names) for lazy, rs in zip((True, False), sets)]
    for i, (w, g) in enumerate(zip(want, got)):
        rec.step()
        if w != g:
            rec.fail(key, "message %d of %s with %s differs without lazy loading: %r" % (i, names, variant, universe.delta(g, w)), messages=[pool()[n] for n in names])


def config(variant):
    return universe.config(options=universe.OPTIONS + VARIANTS[variant], rules=universe.RULES + EXTRA_RULES)


_sets = {}


def run_messages(case, rec):
    variant, names = case
    if variant not in _sets:
        _sets[variant] = both(config(variant))
    rec.state(case)
    rec.trace()
    judge(rec, "%s/%s" % (variant, "+".join(names)), _sets[variant], names, variant)


def run_orders(case, rec):
    plugin = "loadplugin oa.plugins.header_eval.HeaderEval\n"
    sets = both(plugin + "\n".join(HEAD_RULES[i] for i in case) + "\nreport _TESTS_\n")
    rec.state(case)
    rec.trace()
    for n in ("x-dup", "b64", "plain", "empty"):
        judge(rec, "order/%s/%s" % ("".join(map(str, case)), n), sets, [n], "rules %r" % (case,))


PATTERNS = [r"a(b)?", r"^x", r"\bA\b", r"(?P<n>b+)|c", r"a b # c", r".", r"", r"\s*,\s*"]
TEXTS = ["", "a", "ab", "A b\nx", "x,b , c", "abab\nA", u"\u00e9a"]


def run_regex(case, rec):
    """Each operation of the expressions, repeated, in both modes."""
    import oa.config
    from oa.regex import Regex
    pattern, flags = case
    ref = re.compile(pattern, flags)

    def ops(r):
        out = []
        for t in TEXTS:
            for name in ("search", "match", "fullmatch"):
                m = getattr(r, name)(t)
                out.append((name, m and (m.span(), m.groups(), m.groupdict())))
            out.append(("findall", r.findall(t)))
            out.append(("finditer", [m.span() for m in r.finditer(t)]))
            out.append(("sub", r.sub("<z>", t), r.sub("<z>", t, 1)))
            out.append(("split", r.split(t), r.split(t, 1)))
        return out
    want = ops(ref)
    rec.state(case)
    rec.trace()
    for modes in itertools.product((True, False), repeat=4):
        r, other = Regex(pattern, flags), Regex("zz" + pattern, flags)
        for lazy in modes:
            oa.config.LAZY_MODE = lazy
            rec.step()
            try:
                other.search("zz")
                got = ops(r)
            finally:
                oa.config.LAZY_MODE = True
            if got != want:
                rec.fail("regex/%r/%d" % (pattern, flags), "Regex(%r, %d) gives %r, the expression %r in modes %r" % (pattern, flags, [g for g, w in zip(got, want) if g != w][:3], [w for g, w in zip(got, want) if g != w][:3], modes))


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    names = sorted(pool())
    single = [(v, [n]) for v in VARIANTS for n in names]
    some = names if deep else ["x-rc", "x-orig", "x-spf2", "x-dup", "spf-pass", "html", "forged", "free", "empty", "illegal", "dkim-good", "x-mime"]
    pairs = [(v, [a, b]) for v in (VARIANTS if deep else ("base", "orig")) for a in some for b in some]
    orders = [o for k in ((2, 5) if not deep else (2, 3, 6)) for o in itertools.permutations(range(len(HEAD_RULES)), k)]
    if not deep:
        orders = [o for o in orders if len(o) == 2 or max(o) < 5]
    flags = [0, re.I, re.M, re.S, re.X, re.I | re.M, re.I | re.X]
    out = [Space("messages", single, run_messages, "every message with every rule under every configuration", chunk=12),
           Space("pairs", pairs, run_messages, "every ordered pair of messages", chunk=12, timeout=120),
           Space("orders", orders, run_orders, "every order of rules of one header", chunk=10),
           Space("expressions", [(p, f) for p in PATTERNS for f in flags], run_regex, "every operation of an expression, repeated and with changes of the mode", chunk=4)]
    if deep:
        few = ["x-rc", "x-orig", "x-spf2", "x-dup", "spf-helo", "html", "forged", "free", "illegal", "dkim-good"]
        out.append(Space("triples", [("base", list(t)) for t in itertools.permutations(few, 3)], run_messages, "every triple of messages", chunk=6, timeout=120))
    return out
