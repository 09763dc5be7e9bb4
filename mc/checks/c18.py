"""C18: header rules match exactly the headers they name."""
import itertools
import re

from mc import env

TECHNIQUE = "exhaustive enumeration of messages (sequences of headers up to a length over names x values, with decoys in the body and in parts) x rules (names x modifiers x operators x patterns) on the real code, against an independent model"
LEVEL_NOTE = "All sequences of up to 2 (thorough 3 over fewer) headers out of 14 names x 20 values against about 900 rules at once; every way to write a rule line out of a grammar."
ASSUMPTIONS = ["decoding a header is that of the email package for a single line", "an encoded word on a continuation line after plain text is not used: there the package drops the white space between them"]

# raw: (decoded, first address, first name)
VALUES = {
    "spam": ("spam", "spam", None), "say spam now": ("say spam now", None, None), "SPAM": ("SPAM", "SPAM", None), "": ("", None, None), "hello\n world": ("hello\n world", None, None),
    "=?utf-8?q?sp=C3=A9m?=": (u"sp\xe9m", None, None), "=?utf-8?b?c3BhbQ==?=": ("spam", "spam", None), "a =?iso-8859-1?q?=E9?= z": (u"a \xe9 z", None, None), "=?utf-8?q?sp?= =?utf-8?q?am?=": ("spam", "spam", None),
    "=?utf-8?b?a?=": ("=?utf-8?b?a?=", None, None), "=?nocharset?q?spam?= x": (" x", None, None), u"sp\xe9m": (u"sp\xe9m", None, None),
    "bob@x.example": ("bob@x.example", "bob@x.example", ""), "Bob B <bob@x.example>": ("Bob B <bob@x.example>", "bob@x.example", "Bob B"), '"spam, B" <c@z.example>': ('"spam, B" <c@z.example>', "c@z.example", "spam, B"),
    "a@x.example, Spam <spam@y.example>": ("a@x.example, Spam <spam@y.example>", "a@x.example", "Spam"), "<>": ("<>", "", ""), "=?utf-8?q?Bob?= <bob@x.example>": ("Bob <bob@x.example>", "bob@x.example", "Bob"),
    "c@z.example (spam)": ("c@z.example (spam)", "c@z.example", "spam"), "<1.spam@x.example>": ("<1.spam@x.example>", "1.spam@x.example", ""),
}
ADDRESSES = [v for v in VALUES if VALUES[v][1] is not None and "@" in VALUES[v][1] or v == "<>"]
NAMES = ["Subject", "SUBJECT", "To", "cc", "From", "Message-Id", "X-Message-ID", "Resent-Message-Id", "X-A", "X-A-B", "ToCc", "ALL", "MESSAGEID", "Bcc"]
PATTERNS = ["spam", "^spam$", "^$", ".", "\\xe9", "=\\?", "x\\.example$", "Bob", "^subject", "^Subject: spam$", "hello\\s+world", "(?i)SPAM", "X-A: "]
SPECIAL = {"ToCc": ("to", "cc"), "MESSAGEID": ("message-id", "resent-message-id", "x-message-id")}
TARGETS = ["Subject", "sUBJECT", "To", "Cc", "From", "X-A", "x-a-b", "Message-ID", "Missing", "tocc", "Body-Header", "Part-Header"]
DECOY = "MIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=bb\n\nSubject: spam preamble\n--bb\nContent-Type: text/plain\nPart-Header: spam\nSubject: spam x.example\n\nBody-Header: spam\nTo: Bob <spam@x.example>\nX-A: spam\n" \
        "--bb\nContent-Type: message/rfc822\n\nSubject: spam\nFrom: spam\nX-A-B: spam\nTo: Bob\n\ninner\n--bb--\n"
PLAIN = "\nSubject: spam\nX-A: spam\nMissing: spam\n\nBody-Header: spam\n"


def rules():
    out = []
    for t in TARGETS + ["ALL", "ToCc", "MESSAGEID"]:
        for mod in ("", ":raw", ":addr", ":name") if t not in ("ALL", "ToCc", "MESSAGEID") else ("",):
            for op in ("=~", "!~"):
                for p in PATTERNS:
                    out.append((t, mod, op, p))
    return out + [(t, "exists", "", "") for t in TARGETS]


RULES = rules()


def line(i, rule):
    t, mod, op, p = rule
    if mod == "exists":
        return "header R%d exists:%s\n" % (i, t)
    return u"header R%d %s%s %s /%s/\n" % (i, t, mod, op, p)


CONF = "".join(line(i, r) for i, r in enumerate(RULES))
_sets = {}


def values(rule, headers):
    t, mod = rule[:2]
    if t == "ALL":
        return ["%s: %s" % (n, VALUES[v][0]) for n, v in headers]
    names = SPECIAL.get(t, (t.lower(),))
    mine = [v for n, v in headers if n.lower() in names]
    if mod == ":raw":
        return mine
    if mod == ":addr":
        return [VALUES[v][1] for v in mine if VALUES[v][1]]
    if mod == ":name":
        return [VALUES[v][2] for v in mine if VALUES[v][2]]
    return [VALUES[v][0] for v in mine]


def expected(headers, skip):
    out = []
    for i, r in enumerate(RULES):
        if r[1] in skip:
            continue
        vals = values(r, headers)
        if r[1] == "exists":
            hit = any(n.lower() == r[0].lower() for n, v in headers)
        else:
            rx = _rx.setdefault(r[3], re.compile(r[3]))
            hit = any(bool(rx.search(v)) == (r[2] == "=~") for v in vals)
        if hit:
            out.append(i)
    return out


_rx = {}
OWN = [("MIME-Version", "1.0"), ("Content-Type", "multipart/mixed; boundary=bb")]
for _v in OWN:
    VALUES.setdefault(_v[1], (_v[1], None, None))


def judge(rec, headers, decoy):
    if "rs" not in _sets:
        _sets["rs"] = env.build(CONF)
    mail = u"".join("%s: %s\n" % h for h in headers) + (DECOY if decoy else PLAIN)
    rec.step()
    rec.state((headers, decoy))
    try:
        msg = env.check(_sets["rs"], mail)
    except Exception as e:
        rec.fail("raised/%r/%d" % ([n + "=" + v for n, v in headers], decoy), "%r raised for %r" % (e, mail), mail=mail)
        return
    got = set(int(n[1:]) for n in env.matched(msg))
    # The addresses of a value without any are not specified
    skip = (":addr", ":name") if any(VALUES[v][2] is None and v for n, v in headers) else ()
    want = set(expected(list(headers) + (OWN if decoy else []), skip))
    if skip:
        got = set(i for i in got if RULES[i][1] not in skip)
    if got != want:
        bad = sorted(got ^ want)
        rec.fail("%d/%s" % (decoy, "+".join("%s=%s" % h for h in headers).replace(" ", "_").replace("\n", "_")), u"%s: headers %r: %r" % (["plain", "parts"][decoy], headers, [("matched" if i in got else "not matched", line(i, RULES[i]).strip()) for i in bad[:6]]), mail=mail)


def run(case, rec):
    start, names, vals = case
    for n in names:
        for v in vals:
            for decoy in (0, 1):
                judge(rec, tuple(start) + ((n, v),), decoy)
    rec.trace()


def run_syntax(case, rec):
    """Every way to write the rule."""
    name, mod, op, pat, sp = case
    text = u"header R %s\n" % (name + mod + sp[0] + op + sp[1] + pat[0])
    mail = u"Subject: a=~b!~c:d\nX-A: spam /x/\nFrom: A =~ <a@x.example>\n\nbody\n"
    raw = {"subject": "a=~b!~c:d", "x-a": "spam /x/", "from": "A =~ <a@x.example>"}
    rec.step()
    rec.state(case)
    rec.trace()
    rs = env.build(text + "header OTHER exists:From\n")
    got = env.matched(env.check(rs, mail))
    value = raw.get(name.lower())
    if mod == ":addr":
        value = "a@x.example" if name == "From" else "?"
    if mod == ":name":
        value = "A =~" if name == "From" else "?"
    if value == "?":
        return
    want = ["OTHER"]
    if mod not in (":bogus", ":Raw", ":") and op in ("=~", "!~") and value is not None:
        if bool(re.search(pat[1], value)) == (op == "=~"):
            want.append("R")
    rec.check("syntax/%s" % text.strip().replace(" ", "_"), got, sorted(want), rule=text)


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    vals = sorted(v for v in VALUES if v not in ("1.0", OWN[1][1]))
    one = [((), NAMES, [v]) for v in vals]
    few = vals if deep else ["spam", "say spam now", "=?utf-8?b?c3BhbQ==?=", "Bob B <bob@x.example>", "", "=?utf-8?b?a?="]
    two = [(((n, v),), NAMES, few) for n in NAMES for v in (vals if deep else few)]
    pats = [("/a=~b/", "a=~b"), ("/b!~c/", "b!~c"), ("m/spam/", "spam"), ("/SPAM/i", "(?i)spam"), ("m{/x/}", "/x/"), ("/c:d$/", "c:d$"), ("/^a/", "^a"), ("m!spam!", "spam"), ("/=~/", "=~")]
    syn = list(itertools.product(["Subject", "X-A", "From", "subJECT", "Nope"], ["", ":raw", ":addr", ":name", ":bogus", ":Raw", ":"], ["=~", "!~", "==", "=", "~"], pats, [(" ", " "), ("", ""), ("  ", ""), ("\t", "\t")]))
    out = [Space("single", one, run, "every header with every value", chunk=2, timeout=200), Space("pairs", two, run, "every pair of headers", chunk=1, timeout=300), Space("syntax", syn, run_syntax, "every form of rule line", chunk=100)]
    if deep:
        names = ["Subject", "subject", "To", "Cc", "From", "Message-Id", "X-A"]
        few = ["spam", "=?utf-8?b?c3BhbQ==?=", "Bob B <bob@x.example>", "", "say spam now", '"spam, B" <c@z.example>']
        out.append(Space("triples", [(((a, v), (b, w)), names, few) for a in names for b in names for v in few for w in few], run, "every triple of fewer headers", chunk=2, timeout=300))
    return out
