"""C22: report templates are filled in with the values of this message."""
import itertools
import re

from mc import env

TECHNIQUE = "exhaustive enumeration of templates (all sequences of fragments up to a length: tags, unknown tags, special characters) as lines of report, unsafe_report and add_header x messages on the real code through the REPORT, PROCESS and HEADERS commands, against the concatenation of the values of the fragments"
LEVEL_NOTE = "All sequences of up to 3 (thorough 4) of 36 fragments in reports and of up to 2 (3) in unsafe reports and headers, for 7 messages in a row on one ruleset under 2 configurations; all tags with their values."
ASSUMPTIONS = ["the value of an unknown tag isn't specified, only that nothing else is lost", "two tags that share an underscore are not used"]

RULES = "body RA /aaa/\nscore RA 2.5\ndescribe RA Has 100% of _SCORE_ a\nbody RB /bbb/\nscore RB 1.25\nbody RC /ccc/\nscore RC -3\nmeta RM RA && RB\nscore RM 7\nbody __SUB /./\nheader RH Subject =~ /%/\nscore RH 0.01\n"
SCORES = {"RA": 2.5, "RB": 1.25, "RC": -3.0, "RM": 7.0, "RH": 0.01}
BODIES = [("none", []), ("aaa", ["RA"]), ("bbb 50% %s _SCORE_", ["RB"]), ("aaa bbb", ["RA", "RB", "RM"]), ("ccc", ["RC"]), ("aaa bbb ccc", ["RA", "RB", "RC", "RM"]), ("none", [])]
RCVD = "Received: from helo%d.example (rdns%d.example [45.9.2.%d]) by in.local.example (Postfix) with ESMTP id ID%d for <u@to.example>; Mon, 1 Jan 2024 00:00:00 +0000\n"


def message(i):
    body, hits = BODIES[i]
    text = RCVD % (i, i, i + 1, i) + "Subject: msg %d%s\nFrom: a@x.example\n\n%s\n" % (i, " %" if i % 2 else "", body)
    return text, list(hits) + (["RH"] if i % 2 else [])


CONFIGS = {"default": ("", 5.0, ""), "other": ("required_score 1.2\nreport_contact me@contact.example\n", 1.2, "me@contact.example")}


def known(i, conf):
    """The values of the tags for this message."""
    import oa
    text, hits = message(i)
    score = sum(SCORES[h] for h in hits)
    required, contact = CONFIGS[conf][1:]
    spam = score >= required
    return {
        "_YESNO_": "Yes" if spam else "No", "_YESNOCAPS_": "YES" if spam else "NO", "_SCORE_": "%0.1f" % score, "_REQD_": "%0.1f" % required, "_VERSION_": oa.__version__, "_SUBVERSION_": oa.__release_date__, "_HOSTNAME_": "mc.host",
        "_RDNS_": "rdns%d.example" % i, "_HELO_": "helo%d.example" % i, "_IP_": "45.9.2.%d" % (i + 1), "_BY_": "in.local.example", "_ID_": "ID%d" % i,
    }, spam


# fragments: the text itself, or a tag
TEXT = ["a", " b", "%", "%s", "%(SCORE)s", "%%", "_", "__", "_a_", "_score_", "(", ")", "\\", "{0}", "\\n", "*", "$1", "\\1", "'", '"', "_1_", "a_b"]
TAGS = ["_YESNO_", "_SCORE_", "_REQD_", "_YESNOCAPS_", "_VERSION_", "_HOSTNAME_", "_RDNS_", "_IP_", "_BY_"]
LISTS = ["_TESTS_", "_TESTS(,)_", "_TESTS( )_", "_TESTS(; )_", "_TESTS(%)_", "_TESTSSCORES_", "_TESTSSCORES(;)_"]
UNKNOWN = ["_NOSUCH_", "_NO_SUCH_", "_PYZOR_COUNT_"]
FRAGMENTS = TEXT + TAGS + ["_TESTS_", "_TESTS( )_", "_TESTSSCORES_"] + UNKNOWN[:2]


def pattern(seq, tags, hits):
    """A pattern for what a template becomes."""
    out = []
    for f in seq:
        if f in tags:
            out.append(re.escape(tags[f]))
        elif f in UNKNOWN:
            out.append("[^\\n]*?")
        elif f.startswith("_TESTS"):
            sep = re.search(r"\((.*)\)", f)
            sep = re.escape(sep.group(1) if sep else ",")
            if not hits:
                out.append("none")
            else:
                one = "(?:%s)" % "|".join(re.escape(h) + ("=" + number(SCORES[h]) if "SCORES" in f else "") for h in hits)
                out.append("(?P<tests>%s(?:%s%s){%d})" % (one, sep, one, len(hits) - 1) if "tests" not in "".join(out) else "%s(?:%s%s){%d}" % (one, sep, one, len(hits) - 1))
        else:
            out.append(re.escape(f))
    return "".join(out)


def number(x):
    """The ways to write a score."""
    forms = {"%s" % x, "%g" % x, "%.1f" % x, "%.2f" % x, "%.3f" % x}
    return "(?:%s)" % "|".join(re.escape(f) for f in sorted(forms))


def distinct(m, hits):
    """Every test is told once."""
    if "tests" not in m.re.groupindex or not hits:
        return True
    return all(len(re.findall(r"(?<![A-Z])%s(?![A-Z])" % h, m.group("tests"))) == 1 for h in hits)


def compare(rec, key, got, seqs, i, conf, where):
    tags, spam = known(i, conf)
    hits = message(i)[1]
    if len(got) != len(seqs):
        rec.fail("%s/lines" % key, "%s has %d lines for %d templates, like %r" % (where, len(got), len(seqs), got[:3]))
        return
    for line, seq in zip(got, seqs):
        rec.step()
        pat = "<" + pattern(seq, tags, hits) + ">"
        m = re.match(pat + r"\Z", line)
        rec.state((key, seq, i, conf))
        if not m or not distinct(m, hits):
            rec.fail("%s/%s" % (key, "tests" if any("TESTS" in f for f in seq) else "line"), "%s <%s> becomes %r for message %d (%s, tests %s)" % (where, "".join(seq), line, i, conf, hits), template="".join(seq), line=line, pattern=pat)
        else:
            rec.count("lines of %s" % key)


def chunked(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def sequences(n, pool=None):
    """Without two fragments that together would be another tag."""
    for k in range(0, n + 1):
        for seq in itertools.product(pool or FRAGMENTS, repeat=k):
            yield seq


def run_report(case, rec):
    conf, seqs = case
    rs = env.build(RULES + CONFIGS[conf][0] + "".join("report <%s>\n" % "".join(s) for s in seqs))
    for i in range(len(BODIES)):
        text, hits = message(i)
        reply = env.ask(rs, "REPORT", text)
        if reply.error:
            rec.fail("report/reply", "REPORT of message %d: %s" % (i, reply.error))
            continue
        lines = reply.text.split("\n")
        compare(rec, "report", lines[:-1] if lines[-1] == "" else lines, seqs, i, conf, "report")


def run_unsafe(case, rec):
    conf, seqs = case
    rs = env.build(RULES + CONFIGS[conf][0] + "report REPORT\n" + "".join("unsafe_report <%s>\n" % "".join(s) for s in seqs))
    for i in (3, 5, 3):
        text, hits = message(i)
        reply = env.ask(rs, "PROCESS", text)
        m = re.search(r"\n\nREPORT\n(.*?)\n\n?--=", reply.text, re.S)
        if reply.error or not m:
            rec.fail("unsafe/reply", "PROCESS of message %d: %s" % (i, reply.error or "has no report"))
            continue
        compare(rec, "unsafe_report", m.group(1).rstrip("\n").split("\n"), seqs, i, conf, "unsafe_report")


def run_header(case, rec):
    conf, seqs, cls = case
    rs = env.build(RULES + CONFIGS[conf][0] + "report_safe 0\n" + "".join("add_header %s H%d <%s>\n" % (cls, n, "".join(s)) for n, s in enumerate(seqs)))
    for i in range(len(BODIES)):
        text, hits = message(i)
        spam = known(i, conf)[1]
        for command in ("PROCESS", "HEADERS"):
            reply = env.ask(rs, command, text)
            heads = re.sub("\n[ \t]+", " ", reply.text.split("\n\n", 1)[0])
            mine = [h.split(": ", 1) for h in heads.split("\n") if re.match(r"X-Spam-H\d", h)]
            if cls != "all" and (cls == "spam") != spam:
                if mine:
                    rec.fail("header/class", "%s headers are in the reply for message %d: %s" % (cls, i, mine[:2]))
                continue
            if [h[0] for h in mine] != ["X-Spam-H%d" % n for n in range(len(seqs))]:
                rec.fail("header/names", "the reply has the headers %s" % [h[0] for h in mine][:10])
                continue
            compare(rec, "add_header", [h[1] for h in mine], seqs, i, conf, "add_header")


# ---- every documented tag ---------------------------------------------------
def run_tags(case, rec):
    """Single tags: with the values of plugins, reports and previews."""
    conf, order = case
    tags = ["_YESNO_", "_YESNOCAPS_", "_SCORE_", "_REQD_", "_VERSION_", "_SUBVERSION_", "_HOSTNAME_", "_RDNS_", "_HELO_", "_IP_", "_BY_", "_ID_"]
    rs = env.build(RULES + CONFIGS[conf][0] + "".join("report [%s]\n" % t for t in tags + LISTS) + "report C[_CONTACTADDRESS_]C\nreport P[_PREVIEW_]P\nreport R[_REPORT_]R\nreport S[_SUMMARY_]S\n")
    for i in order:
        text, hits = message(i)
        values = known(i, conf)[0]
        got = env.ask(rs, "REPORT", text).text
        rec.step()
        rec.state((conf, order, i))
        lines = got.split("\n")
        for n, t in enumerate(tags + LISTS):
            m = re.match(r"\[%s\]\Z" % pattern((t,), values, hits), lines[n])
            if not m or not distinct(m, hits):
                rec.fail("tag/%s" % t, "%s is %r for message %d (%s) after %s" % (t, lines[n], i, conf, order))
        # the reports tell every test once, with what it is about
        for name, mark in (("_REPORT_", "R"), ("_SUMMARY_", "S")):
            m = re.search(r"(?ms)^%s\[(.*)\]%s$" % (mark, mark), got)
            if not m:
                rec.fail("tag/%s" % name, "%s isn't in %r" % (name, got))
                continue
            rows = [r for r in m.group(1).replace("\r", "").split("\n") if r.strip()]
            for h in hits:
                mine = [r for r in rows if re.search(r"(?<![A-Z])%s(?![A-Z])" % h, r)]
                if len(mine) != 1 or not re.search(r"(?<![\d.])%s(?!\d)" % number(SCORES[h]), mine[0]) or h == "RA" and "Has 100% of _SCORE_ a" not in mine[0]:
                    rec.fail("tag/%s" % name, "%s says %r about %s of message %d" % (name, mine, h, i))
            if len(rows) != len(hits):
                rec.fail("tag/%s" % name, "%s has %d lines for the tests %s" % (name, len(rows), hits))
        m = re.search(r"(?ms)^P\[(.*)\]P$", got)
        if not m or not m.group(1).startswith(BODIES[i][0]):
            rec.fail("tag/_PREVIEW_", "the preview of %r is %r" % (BODIES[i][0], m and m.group(1)))
        if CONFIGS[conf][2] and "\nC[%s]C\n" % CONFIGS[conf][2] not in got:
            rec.fail("tag/_CONTACTADDRESS_", "no contact address in %r" % got[-300:])
        rec.count("messages with all the tags")


# ---- the tags about relays ----------------------------------------------------
# name: (header, ip, rdns, helo, envelope sender, id, authentication)
HOPS = {
    "T": ("from t.example (tr.example [45.1.3.4]) by in.example (Postfix) with SMTP id T1", "45.1.3.4", "tr.example", "t.example", "", "T1", ""),
    "U": ("from u (ur.example [45.1.3.5]) by in2.example (Postfix) with ESMTP id U1 (envelope-from <u@e.example>)", "45.1.3.5", "ur.example", "u", "u@e.example", "U1", ""),
    "E": ("from e.example (er.example [46.7.8.9]) by in3.example (Postfix) with SMTP id E1", "46.7.8.9", "er.example", "e.example", "", "E1", ""),
    "N": ("from 100% (unknown [46.7.8.10]) by in4.example (Postfix) with SMTP id N1 (envelope-from <n%s@e.example>)", "46.7.8.10", "", "100%", "n%s@e.example", "N1", ""),
}
BYS = {"T": "in.example", "U": "in2.example", "E": "in3.example", "N": "in4.example"}
NETS = {"": "", "trusted_networks 45.1.0.0/16\n": "TU", "internal_networks 45.1.3.4\n": "T"}
RELAYTAGS = ["RDNS", "HELO", "IP", "BY", "ENVFROM", "IDENT", "ID", "AUTH", "RELAYSTRUSTED", "RELAYSUNTRUSTED", "RELAYSINTERNAL", "RELAYSEXTERNAL", "LASTEXTERNALIP", "LASTEXTERNALRDNS", "LASTEXTERNALHELO"]


def run_relays(case, rec):
    nets, chains = case
    rs = env.build(nets + "report_safe 0\n" + "".join("report <_%s_>\n" % t for t in RELAYTAGS) + "add_header all T <_RELAYSTRUSTED_|_RELAYSINTERNAL_|_IDENT_>\n")
    for chain in chains:
        text = "".join("Received: %s; Mon, 1 Jan 2018 00:00:00 +0000\n" % HOPS[c][0] for c in chain) + "Subject: x\n\nb\n"
        got = env.ask(rs, "REPORT", text).text.split("\n")
        rec.step()
        rec.state((nets, chain))
        trusted = list(itertools.takewhile(lambda c: c in NETS[nets], chain))
        want = {"TRUSTED": trusted, "INTERNAL": trusted, "UNTRUSTED": chain[len(trusted):], "EXTERNAL": chain[len(trusted):]}
        for tag, line in zip(RELAYTAGS, got):
            value = line[1:-1]
            if line[:1] + line[-1:] != "<>":
                rec.fail("relays/lines", "the line of %s is %r for %s (%s)" % (tag, line, chain, nets))
            elif tag.startswith("RELAYS"):
                ips = re.findall(r"(?:\d+\.){3}\d+", value)
                if ips != [HOPS[c][1] for c in want[tag[6:]]] or not ips and value.strip():
                    rec.fail("relays/%s" % tag, "%s is %r for %s (%s)" % (tag, value, chain, nets))
            elif tag.startswith("LAST"):
                if want["EXTERNAL"]:
                    rec.check("relays/%s" % tag, value, HOPS[want["EXTERNAL"][0]][{"IP": 1, "RDNS": 2, "HELO": 3}[tag[12:]]], chain=chain, nets=nets)
            elif chain:
                hop = HOPS[chain[0]]
                rec.check("relays/%s" % tag, value, {"IP": hop[1], "RDNS": hop[2], "HELO": hop[3], "ENVFROM": hop[4], "ID": hop[5], "AUTH": hop[6], "IDENT": "", "BY": BYS[chain[0]]}[tag], chain=chain, nets=nets)
        head = re.sub("\n[ \t]+", " ", env.ask(rs, "HEADERS", text).text)
        m = re.search(r"(?m)^X-Spam-T: <([^|]*)\|([^|]*)\|([^|]*)>$", head)
        if not m or not trusted and (m.group(1).strip() or m.group(2).strip()) or chain and m.group(3):
            rec.fail("relays/header", "the header of %s (%s) is %r" % (chain, nets, head[-300:]))
        rec.count("messages with the tags of relays")


# ---- quotes -----------------------------------------------------------------
QUOTED = [('"a b"', "a b"), ("'a b'", "a b"), ('" a "', " a "), ('a "b"', 'a "b"'), ('"b" a', '"b" a'), ("it's '", "it's '"), ('"', '"'), ('""', ""), ("''", ""), ("\"a'", "\"a'"), ('"_YESNO_"', "No"), ("a'", "a'"), ("'a", "'a"), ("a  b", "a  b"), ('"a"b"', 'a"b')]


def run_quotes(case, rec):
    rs = env.build("report_contact x@x.example\nreport first\n" + "".join("report %s\n" % q for q, w in case) + "report last\n")
    got = env.ask(rs, "REPORT", "Subject: x\n\nb\n").text
    want = "\n".join(["first"] + [w for q, w in case] + ["last"]) + "\n"
    rec.step()
    rec.state(case)
    if got.rstrip("\n") != want.rstrip("\n"):
        rec.fail("quotes", "the templates %s give %r, not %r" % ([q for q, w in case], got, want))
    else:
        rec.count("reports with quotes")


def spaces(tier):
    from mc.core import Space
    n = 3 if tier == "quick" else 4
    reports = itertools.chain(((c, s) for c in CONFIGS for s in chunked(sequences(2), 200)), ((["default", "other"][k % 2], s) for k, s in enumerate(chunked(itertools.product(FRAGMENTS, repeat=3), 400))))
    if tier == "thorough":
        small = ["a", "%", "_", "__", "_a_", "_YESNO_", "_SCORE_", "_TESTS_", "_NOSUCH_", "%(SCORE)s", "(", "_TESTS( )_", "'"]
        reports = itertools.chain(reports, (("default", s) for s in chunked(itertools.product(small, repeat=4), 400)))
    return [
        Space("reports", reports, run_report, "lines of a report", chunk=1, timeout=200),
        Space("unsafe", ((c, s) for c in CONFIGS for s in chunked(sequences(2 if n == 3 else 3), 300)), run_unsafe, "lines of an unsafe report", chunk=1, timeout=200),
        Space("headers", ((c, s, k) for c in CONFIGS for k in ("all", "spam", "ham") for s in chunked((q for q in sequences(2) if True), 150)), run_header, "values of headers", chunk=1, timeout=200),
        Space("tags", ((c, o) for c in CONFIGS for o in itertools.permutations(range(6), 2 if tier == "quick" else 3)), run_tags, "every tag for messages in a row"),
        Space("relays", ((n, ["".join(c) for c in itertools.product(HOPS, repeat=k)]) for n in NETS for k in range(3 if tier == "quick" else 5)), run_relays, "the tags of relays for every chain"),
        Space("quotes", itertools.chain.from_iterable(itertools.product(QUOTED, repeat=k) for k in range(1, 3 if tier == "quick" else 4)), run_quotes, "quotes around templates"),
    ]
