"""C52: the rules on headers judge subjects, recipients and identifiers."""
import itertools
import re

from mc import env

TECHNIQUE = "exhaustive enumeration of subjects (sequences of words, marks and characters), recipient lists, header lists and identifiers on the real plugin, all rules at once, against an independent model of each"
LEVEL_NOTE = "All subjects of up to 3 pieces (4 in thorough) of 16; all texts of up to 4 characters (6 in thorough) of 9 kinds in 3 headers; all lists of up to 6 recipients (7 in thorough) of 4 in every split over To, Cc and Bcc; all lists of up to 4 values of 3 (5 in thorough); all combinations of 19 names, 9 values, 3 foldings, 2 bodies and 2 line breaks; all pairs of 8 identifiers in 6 forms; all histories of 2 messages (3 in thorough); rules in both orders."
ASSUMPTIONS = ["a ratio that is exactly at a bound of similar_recipients is not judged", "the header is not empty in the rules that look at its text"]

SHARES = [("0", "1"), ("0.3", "1"), ("0.5", "2"), ("0.26", "1"), ("0", "3"), ("1", "1")]
SIMILAR = [("0", "undef"), ("undef", "0.45"), ("0.05", "1"), ("0.35", "0.65"), ("0.65", "undef"), ("undef", "undef"), ("0.2", "0.25")]
RANGES = [(0, 0), (1, 1), (1, 2), (2, 3), (3, 9), (2, 1), (4, 4)]
RULES = {"CAPS": "subject_is_all_caps()", "ADDRESS": "check_for_to_in_subject('address')", "USER": "check_for_to_in_subject('user')", "SORTED": "sorted_recipients()", "TEMPLATE": "check_unresolved_template()", "NAMEID": "check_ratware_name_id()", "NOTO": "check_for_missing_to_header()"}
for _n, _b in enumerate(SHARES):
    for _h in ("Subject", "MyHeader", "ALL"):
        RULES["CHARS_%s_%d" % (_h.upper(), _n)] = "check_illegal_chars('%s','%s','%s')" % ((_h,) + _b)
for _n, _b in enumerate(SIMILAR):
    RULES["SIMILAR_%d" % _n] = "similar_recipients('%s','%s')" % _b
for _n, _b in enumerate(RANGES):
    RULES["COUNT_%d" % _n] = "check_header_count_range('X-Seen', %d, %d)" % _b

_sets = {}
PLAIN = ("x-vms-to", "x-uidl", "x-face", "to", "cc", "from", "subject", "references", "in-reply-to", "message-id", "x-message-id", "resent-message-id", "x-original-message-id")


def ruleset(order):
    if order not in _sets:
        _sets[order] = env.build("loadplugin oa.plugins.header_eval.HeaderEval\n" + "".join("header %s eval:%s\n" % x for x in list(RULES.items())[::order]))
    return _sets[order]


def values(headers, name):
    return [v for n, v in headers if n.lower() == name.lower()]


def illegal(text):
    return sum(1 for c in text if ord(c) > 127 or (ord(c) < 32 and c not in "\t\n\r"))


def expected(headers, decoded, people):
    """The names of the rules that match, and of those that aren't judged."""
    out, skip = set(), set()
    # subject
    subject = decoded if decoded is not None else "".join(values(headers, "Subject")[:1])
    rest = subject
    head, mark, tail = subject.partition(":")
    if mark and head.lower() in ("re", "fwd", "fw", "aw", "antwort", "sv"):
        rest = tail
    rest = rest.strip()
    letters = [c for c in rest if c.lower() != c.upper()]
    if len(rest) >= 10 and len(rest.split()) > 1 and letters and all(c == c.upper() for c in letters):
        out.add("CAPS")
    raw = "".join(values(headers, "Subject")[:1])
    for address in people.get("To", ()):
        if address.lower() in raw.lower():
            out.add("ADDRESS")
        user = address.split("@")[0]
        marks = ",:;!?-"
        after = raw[len(user):].lstrip() if raw.startswith(user) else ""
        answered = [raw[:-len(user)]] if raw.endswith(user) else []
        answered = [a for a in answered if re.search(r"(re|fw):\s*(\w+\s+)?\Z", a)]
        if raw == user or answered or any(raw.endswith(user + m) for m in marks) or (after[:1] and after[0] in marks and after[1:2].isspace()):
            out.add("USER")
    # characters
    for name in ("Subject", "MyHeader", "ALL"):
        if name == "ALL":
            text = "".join(v for n, v in headers if n.lower() not in ("subject", "from"))
        else:
            text = "".join(values(headers, name))
        bad = illegal(text)
        if name == "Subject" and sum(text.count(c) for c in "\xa2\xa3\xae") == 1:
            bad -= 1
        for n, (share, count) in enumerate(SHARES):
            if text and bad / len(text) >= float(share) and bad >= int(count):
                out.add("CHARS_%s_%d" % (name.upper(), n))
    # recipients
    everyone = [a for name in ("To", "Cc", "Bcc") for a in people.get(name, ())]
    if everyone and all(a <= b for a, b in zip(everyone, everyone[1:])):
        out.add("SORTED")
    different = [a for a, g in itertools.groupby(everyone)]
    ratio = 0
    if len(different) >= 5:
        pairs = [(a, b) for i, a in enumerate(different) for b in different[i + 1:]]
        same = sum(a[:5] == b[:5] for a, b in pairs)
        hosts = [(a.split("@")[1], b.split("@")[1]) for a, b in pairs]
        ratio = (same + sum(a != b and a[:2] == b[:2] for a, b in hosts)) / len(pairs)
    for n, (low, high) in enumerate(SIMILAR):
        if any(b != "undef" and abs(float(b) - ratio) < 1e-9 for b in (low, high)):
            skip.add("SIMILAR_%d" % n)
        elif (low == "undef" or ratio > float(low)) and (high == "undef" or ratio < float(high)):
            out.add("SIMILAR_%d" % n)
    if not values(headers, "To") and not values(headers, "Apparently-To"):
        out.add("NOTO")
    # lists
    count = len(set(values(headers, "X-Seen")))
    out.update("COUNT_%d" % n for n, (low, high) in enumerate(RANGES) if low <= count <= high)
    # templates
    if any(re.search("%[A-Z][A-Z_-]", v) for n, v in headers if n.lower() not in PLAIN):
        out.add("TEMPLATE")
    # names
    ids, authors = values(headers, "Message-Id")[:1], values(headers, "From")[:1]
    if ids and authors:
        m = re.search(r"<[A-Z]{28}\.(.+)>", ids[0])
        a = re.search(r'"[^"]+"\s*<(.+)>', authors[0])
        if m and a and m.group(1) == a.group(1):
            out.add("NAMEID")
    return out, skip


def judge(rec, key, headers, decoded=None, people={}, body="one", eol="\n"):
    text = "".join("%s: %s\n" % h for h in headers).replace("\n", eol) + eol + body + eol
    want, skip = expected(headers, decoded, people)
    for order in (1, -1):
        rec.step()
        got = set(env.matched(env.check(ruleset(order), text)))
        rec.check(key, sorted(got - skip), sorted(want - skip), mail=text, order=order)


PIECES = ["Re:", "FWD:", "re:", "AW:", "HELLO", "hello", "WORLD", "A", "mary", "mary,", "mary:", "-", "Mary@X.example", "mary@x.example!", "123", "GR\xd6SSE"]


def run_subjects(case, rec):
    rec.state(case)
    for people in (["mary@x.example"], ["bob@y.example", "mary@x.example"]):
        judge(rec, "subjects", [("Subject", " ".join(case)), ("To", ", ".join(people))], people={"To": people})
    text = " ".join(case)
    if all(c.isalnum() or c in " :" for c in text):
        coded = "=?utf-8?q?%s?=" % "".join("_" if c == " " else c if c.isalnum() and ord(c) < 128 else "".join("=%02X" % b for b in c.encode("utf8")) for c in text)
        judge(rec, "subjects/encoded", [("Subject", coded)], decoded=text)
    rec.trace()


CHARS = ["a", "B", "\xa2", "\xa3", "\xae", "\xe9", "\u4e2d", "\x01", "\x1b"]


def run_chars(case, rec):
    rec.state(case)
    text = "x" + "".join(case)
    for header in ("Subject", "MyHeader", "From"):
        judge(rec, "chars/" + header, [(header, text), ("X-Other", "abc")])
    judge(rec, "chars/folded", [("MyHeader", text + "\n\t" + text), ("Subject", text)])
    rec.trace()


PEOPLE = ["abcdef@x.example", "abcdeg@y.example", "b@x.example", "c@xa.example"]


def run_people(case, rec):
    case, first, second = case
    rec.state((case, first, second))
    people = {"To": [PEOPLE[n] for n in case[:first]], "Cc": [PEOPLE[n] for n in case[first:second]], "Bcc": [PEOPLE[n] for n in case[second:]]}
    headers = [(n, ", ".join(("<%s>" if i % 2 else "Some One <%s>") % a for i, a in enumerate(people[n]))) for n in ("Bcc", "To", "Cc") if people[n]]
    judge(rec, "recipients", headers + [("Subject", "x")], people=people)
    rec.trace()


NAMES = ["Subject", "To", "cc", "FROM", "X-Uidl", "X-Vms-To", "X-Face", "Message-Id", "Resent-Message-ID", "X-Message-Id", "X-Original-Message-ID", "In-Reply-To", "References", "X-Mailer", "List-Id", "X-To", "Subject2", "Date", "Received"]
MARKED = ["x %AB y", "%A_", "%A-b", "%A", "%ab", "100% YES", "%A B", "%%AB", "mark%ZZ"]


def run_templates(case, rec):
    name, body, eol = case
    rec.state(case)
    for value in MARKED:
        for other in ([], [("X-Other", "plain")], [("Subject", "%AB")], [("X-Last", "%AB")]):
            if (name.lower() == "subject" and other and other[0][0] == "Subject"):
                continue
            for folded in (value, "one\n\t" + value, value + "\n two"):
                for headers in ([(name, folded)] + other, other + [(name, folded)]):
                    if name in ("To", "cc", "FROM", "Message-Id"):
                        # the other rules look at the text of these, too
                        got, want, text = both(headers, body, eol)
                        rec.step()
                        rec.check("templates", got, want, mail=text)
                    elif eol == "\n":
                        judge(rec, "templates", headers, body=body, eol=eol)
                    else:
                        got, want, text = both(headers, body, eol)
                        rec.step()
                        rec.check("templates/CRLF", got, want, mail=text)
    rec.trace()


def both(headers, body, eol):
    text = "".join("%s: %s\n" % h for h in headers).replace("\n", eol) + eol + body + eol
    return "TEMPLATE" in env.matched(env.check(ruleset(1), text)), "TEMPLATE" in expected(headers, None, {})[0], text


SEEN = ["a", "A", "b"]


def run_counts(case, rec):
    rec.state(case)
    for names in (["X-Seen"] * 5, ["X-Seen", "x-seen", "X-SEEN", "X-Seen", "x-Seen"]):
        headers = [("X-Seen-Too", "a"), ("Subject", "x")] + [(n, SEEN[v]) for n, v in zip(names, case)]
        judge(rec, "counts", headers)
        judge(rec, "counts", headers[2:] + headers[:2])
    for name in ("To", "Apparently-To", "X-To", "to", "Cc"):
        judge(rec, "missing", [(name, "mary@x.example")] + [("X-Seen", SEEN[v]) for v in case], people={"To" if name == "to" else name: ["mary@x.example"]} if name in ("To", "to", "Cc") else {})
    rec.trace()


IDS = ["EXAMPLE", "a@x.example", "a.b@x.example", "axb@x.example", "a+b@x.example", "aab@x.example", "x(y", "$1"]
FORMS = ['"Some One" <%s>', '"Some One"<%s>', 'Some One <%s>', '"" <%s>', '<%s>', '"O" \t<%s>']


def run_ids(case, rec):
    one, two = case
    rec.state(case)
    for form in FORMS:
        for caps in ("A" * 28, "ABCDEFGHIJKLMNOPQRSTUVWXYZAB", "A" * 27, "a" * 28):
            judge(rec, "identifiers", [("Message-Id", "<%s.%s>" % (caps, IDS[one])), ("From", form % IDS[two])])
        judge(rec, "identifiers/no id", [("From", form % IDS[two])])
    judge(rec, "identifiers/no author", [("Message-Id", "<%s.%s>" % ("A" * 28, IDS[one]))])
    rec.trace()


MAILS = [
    dict(headers=[("Subject", "HELLO WORLD")]), dict(headers=[("Subject", "mary"), ("To", PEOPLE[0])], people={"To": PEOPLE[:1]}),
    dict(headers=[("To", ", ".join(PEOPLE + PEOPLE[:2]))], people={"To": PEOPLE + PEOPLE[:2]}), dict(headers=[("Cc", ", ".join(sorted(PEOPLE)))], people={"Cc": sorted(PEOPLE)}),
    dict(headers=[("X-Seen", "a"), ("X-Seen", "b")]), dict(headers=[("MyHeader", "\xe9\xe9")]), dict(headers=[("X-Mailer", "%AB"), ("Bcc", "b@x.example, a@x.example")], people={"Bcc": ["b@x.example", "a@x.example"]}),
    dict(headers=[("X-Mailer", "y")], body="50% OFF or 50%OFF"),
]


def run_histories(case, rec):
    rec.state(case)
    for n in case:
        judge(rec, "histories", **MAILS[n])
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    many = lambda pool, least, most: [c for n in range(least, most + 1) for c in itertools.product(pool, repeat=n)]
    lists = many(range(4), 0, 7 if deep else 6)
    people = []
    for c in lists:
        n = len(c)
        cuts = [(a, b) for a in range(n + 1) for b in range(a, n + 1)]
        people += [(c,) + x for x in (cuts if n < 5 else [(n, n), (n // 2, n), (0, n // 2), (1, n - 1)])]
    return [
        Space("subjects", many(PIECES, 1, 4 if deep else 3), run_subjects, "subjects of words and marks", chunk=50),
        Space("chars", many(CHARS, 0, 5 if deep else 4), run_chars, "characters of headers", chunk=60),
        Space("recipients", people, run_people, "lists of recipients", chunk=80),
        Space("templates", [(n, b, e) for n in NAMES for b in ("one", "50%OFF\n\n%AB: %AB") for e in ("\n", "\r\n")], run_templates, "placeholders in headers", chunk=2),
        Space("counts", many(range(3), 0, 5 if deep else 4), run_counts, "repeated headers", chunk=10),
        Space("identifiers", list(itertools.product(range(len(IDS)), repeat=2)), run_ids, "identifiers and authors", chunk=4),
        Space("histories", list(itertools.product(range(len(MAILS)), repeat=3 if deep else 2)), run_histories, "messages one after the other", chunk=16),
    ]
