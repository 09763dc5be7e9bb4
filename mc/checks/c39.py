"""C39: checking is total: every message gets a result."""
import base64
import itertools
import math
import os

from mc import env, universe

TECHNIQUE = "exhaustive enumeration of damage on the real engine with every plugin: all truncations, losses, repetitions and exchanges of lines, odd values of every header, encodings, MIME structures and broken markup; totality is judged on each, and rules that do not look at the damaged part are compared with the undamaged message"
LEVEL_NOTE = "48 messages, each cut at every character, each line lost, repeated, exchanged; every header with 56 odd values; MIME structures of up to 3 levels with every kind of damage; transfer encodings x charsets x payloads; sequences of up to 3 (4 in thorough) of 34 pieces of markup; nesting up to 3000 levels."
ASSUMPTIONS = ["the outside world (DNS, SPF, Pyzor, Razor) is simulated", "a rule that raises an error counts as one that fails to run"]

EXTRA_RULES = [
    "header DK_DWL eval:check_for_def_dkim_whitelist_from()", "header RBL_DOM eval:check_rbl_from_domain('zd', 'dom.example.')", "header RBL_ACC eval:check_rbl_accreditor('za', 'acc.example.', 'x')",
    "body PDF_IC eval:pdf_image_count(1, 5)", "body PDF_PC eval:pdf_pixel_coverage(1, 5000)", "body PDF_M5 eval:pdf_match_md5('00')", "body PDF_MD eval:pdf_match_details('author', '/x/')", "full RAZOR_R eval:check_razor2_range('', '1', '100')",
    "header RE_ILL eval:check_for_illegal_ip()", "header RE_UNP eval:check_relays_unparseable()", "header SPFH_NEU eval:check_for_spf_helo_neutral()", "header SPFH_PE eval:check_for_spf_helo_permerror()", "header SPFH_TE eval:check_for_spf_helo_temperror()",
    "header WL_TB eval:check_to_in_blacklist()", "header WL_FL eval:check_from_in_list('XX')", "header WL_TL eval:check_to_in_list('XX')", "header WL_TAS eval:check_to_in_all_spam()", "header WL_TMS eval:check_to_in_more_spam()", "header WL_FDW eval:check_from_in_default_whitelist()",
    "header WL_FORD eval:check_forged_in_default_whitelist()", "body WL_UHW eval:check_uri_host_in_whitelist()", "body WL_UHB eval:check_uri_host_in_blacklist()",
]
EXTRA = "blacklist_to *@bt.example\nreport all END\nadd_header all End END\nfreemail_whitelist ok@freemail.example\noriginating_ip_headers X-Origin\n"
# Rules that look at the text and the URIs only, and at the headers only.
TEXTUAL = ("B_", "R_HTML", "U_", "M_PNG", "TAGGED", "UD_", "II_", "UE_", "BE_", "WL_UB", "WL_UW", "WL_UH")
HEADERS = ("H_", "RE_", "SPF", "WL_FROM", "WL_BFROM", "WL_TO", "WL_MF", "WL_FORGED", "WS_", "HE_", "FM_FROM", "FM_HDR", "FM_DIG", "RBL_")
PLAIN = ("received", "from", "to", "date", "message-id", "reply-to", "x-free", "x-extra", "x-other", "x-tmpl", "dkim-signature", "received-spf", "authentication-results")
ODD = ["", " ", "@", "<>", "<", "a@", "@b", "=?", "=?utf-8?q?=?=", "=?utf-8?b?!!!?=", "=?bogus?q?x?=", "=?utf-8?q?=ff=fe?=", "=?hex?q?6f6e65?=", "\x00", u"\u00e9\u4e2d\U0001f600", "a b c d", "9" * 40, "-1", "0", ",", ";", ":", "\"", "(", ")", "\\", "%s", "[", "]",
       "text/", "multipart/mixed; boundary=", "multipart/mixed; boundary=\"\"", "text/plain; charset=bogus", "text/plain; charset=", "text/html; charset=utf-7", "message/rfc822", "message/delivery-status", "image/png", "application/pdf", "multipart/alternative; boundary=zz",
       "base64", "quoted-printable", "x-uuencode", "Thu, 99 Foo 9999 99:99:99 +9999", "Mon, 1 Jan 0001 00:00:00 +0000", "from x by y", "from x ([1.2.3.999]) by y; z", "from [::1] by z with SMTP; Mon, 1 Jan 2018 00:00:00 +0000", "a@b@c.example", "\"x\" <a@b.example", "a@[1.2.3.4]",
       u"\u00e9@\u00e9.example", "pass", u"\uffff\u2028x", "\t", "a" * 2000]
NAMES = ("From", "To", "Cc", "Date", "Subject", "Message-Id", "Received", "Reply-To", "Return-Path", "Content-Type", "Content-Transfer-Encoding", "MIME-Version", "Received-SPF", "Authentication-Results", "DKIM-Signature", "X-Envelope-From", "X-Origin", "X-Mailer", "References",
         "List-Id", "X-Msn", "X-Free", "X-Extra", "Sender", "Resent-Date", "")
_sets, _usual = {}, {}


def catalogue():
    out = dict(universe.messages())
    out["uu"] = "Subject: x\nContent-Transfer-Encoding: x-uuencode\nMIME-Version: 1.0\nContent-Type: text/plain\n\nbegin 644 x\n#;VYE\n`\nend\n"
    out["rfc822"] = "Subject: x\nMIME-Version: 1.0\nContent-Type: message/rfc822\n\nSubject: inner\nContent-Type: text/plain\n\none inner\n"
    out["report"] = "Subject: x\nMIME-Version: 1.0\nContent-Type: multipart/report; boundary=b1\n\n--b1\nContent-Type: message/delivery-status\n\nReporting-MTA: dns; x\n\nFinal-Recipient: rfc822; a@b\nAction: failed\n--b1--\n"
    return out


class Failed(Exception):
    pass


def ruleset():
    if os.getpid() not in _sets:
        _sets.clear()
        _usual.clear()
        rs = env.build(universe.config(options=universe.OPTIONS + EXTRA, rules=universe.RULES + EXTRA_RULES))
        universe.world()
        errors = []
        for name, rule in rs.checked.items():
            def match(msg, name=name, match=rule.match):
                try:
                    return match(msg)
                except Exception as e:
                    if type(e).__name__ != "StopProcessing":
                        errors.append("%s: %r" % (name, e))
                    raise
            rule.match = match
        _sets[os.getpid()] = (rs, errors)
    return _sets[os.getpid()]


def judge(rec, key, text, **info):
    """Checks that a message gets its result; the rules that match, or None."""
    rs, errors = ruleset()
    del errors[:]
    rec.step()
    msg = env.check(rs, text)
    if errors:
        rec.fail(key + "/rules", "rules fail to run: %s" % errors[:4], message=text[:600], **info)
        return None
    hits = env.matched(msg)
    total = sum(rs.get_rule(n).score for n in hits)
    if "SCRULE" in hits:
        total = msg.score  # Short-circuited: it has a score of its own.
    if not math.isfinite(msg.score) or abs(msg.score - total) > 1e-6:
        rec.fail(key + "/score", "the score is %r, the rules that match have %r" % (msg.score, total), message=text[:600], **info)
    report = rs.get_report(msg)
    if not report.endswith("END\n"):
        rec.fail(key + "/report", "the report is not complete: %r" % report[-200:], message=text[:600], **info)
    if "X-Spam-End: END\n" not in rs.get_adjusted_message(msg):
        rec.fail(key + "/rewritten", "the rewritten message is not complete", message=text[:600], **info)
    rs.get_adjusted_message(msg, header_only=True)
    return hits


def unchanged(rec, key, hits, usual, prefixes, **info):
    if hits is None or usual is None or "SCRULE" in hits or "SCRULE" in usual:
        return
    got = [n for n in hits if n.startswith(prefixes)]
    want = [n for n in usual if n.startswith(prefixes)]
    rec.check(key, got, want, **info)


def usual(rec, text):
    if text not in _usual:
        if len(_usual) > 500:
            _usual.clear()
        _usual[text] = judge(rec, "undamaged", text)
    return _usual[text]


def run_cut(case, rec):
    name, offsets = case
    text = catalogue()[name]
    rec.state(case)
    head = text.find("\n\n")
    for i in offsets:
        hits = judge(rec, "cut", text[:i], name=name, at=i)
        if i > head + 1 > 1:
            unchanged(rec, "cut/headers", hits, usual(rec, text), HEADERS, name=name, at=i)
    rec.trace()


def run_lines(case, rec):
    name, i, odd = case
    text = catalogue()[name]
    lines = text.split("\n")
    head = text[:text.find("\n\n") + 1].count("\n") if not text.startswith("\n") else 0
    rec.state(case)
    variants = {"lost": lines[:i] + lines[i + 1:], "repeated": lines[:i + 1] + lines[i:], "exchanged": lines[:i] + lines[i:i + 2][::-1] + lines[i + 2:]}
    for j, o in enumerate(ODD[::odd]):
        if ":" in lines[i]:
            variants["value", j] = lines[:i] + [lines[i].split(":")[0] + ": " + o] + lines[i + 1:]
        variants["line", j] = lines[:i] + [o] + lines[i + 1:]
    for what, new in variants.items():
        hits = judge(rec, "line", "\n".join(new), name=name, line=lines[i][:80], what=what)
        key = "line/%s" % (what if isinstance(what, str) else what[0])
        if i > head and head:
            unchanged(rec, key + "/headers", hits, usual(rec, text), HEADERS, name=name, line=lines[i][:80], what=what)
        elif what[0] == "value" and i < head and lines[i].split(":")[0].lower() in PLAIN:
            unchanged(rec, key + "/text", hits, usual(rec, text), TEXTUAL, name=name, line=lines[i][:80], what=what)
    rec.trace()


BASES = {
    "text": "Subject: hello\nFrom: a@x.example\n%s\none two http://bad-uri.example/\n",
    "relayed": universe.rcvd(universe.IN, ("m.free.example", "m.free.example", "45.9.2.11", "in.local.example", "x1@freemail.example")) + "%sFrom: x1@freemail.example\nTo: u@to.example\nSubject: SPAM\n\ntwo four http://good-uri.example\n",
}


def run_headers(case, rec):
    """Odd headers, one or two of them."""
    base, fields = case
    rec.state(case)
    odd = "".join("%s: %s\n" % f for f in fields)
    hits = judge(rec, "header", BASES[base] % odd, base=base, fields=fields)
    if all(n.lower() in PLAIN or n in ("Return-Path", "Cc", "List-Id", "References", "Sender", "X-Origin") for n, _ in fields):
        unchanged(rec, "header/text", hits, usual(rec, BASES[base] % ""), TEXTUAL, base=base, fields=fields)
    rec.trace()


CTE = ["", "7bit", "8bit", "binary", "base64", "quoted-printable", "x-uuencode", "bogus", "BASE64 ;x", u"\u00e9"]
CHARSETS = ["utf-8", "us-ascii", "latin1", "bogus", "", "utf-7", "utf-16", "koi8-r", "iso-2022-jp", "hex", "zlib", "rot13", "unicode_escape", "idna", "punycode", "undefined", "bz2", "uu", "utf-8-sig", "big5", "hz", "\\x00", "utf-8'en'x", u"\u00e9"]
PAYLOADS = ["one text", "", u"\u00e9\u00e8 one", "!!!", "=", "=X", "b25l", "b25l=", "b25lA", "begin 644 x\n#;VYE\n`\nend\n", "\x00\x01", "+AOk-", "\\ud800", "\x1b$B!!", "xn--", "a" * 1000, u"\ufeffone"]
TYPES = ["text/plain", "text/html", "image/png; name=pic.png", "application/pdf; name=doc.pdf", "text", "multipart/alternative; boundary=x", "message/rfc822", "text/calendar", "message/partial", "message/external-body", "application/octet-stream", "image/gif", "image/jpeg; name=\"\""]


def run_encodings(case, rec):
    kind, cte, charsets = case
    for charset, payload in itertools.product(charsets, PAYLOADS):
        rec.state((case, charset, payload))
        part = "Content-Type: %s; charset=%s\n%s\n%s\n" % (kind, '"%s"' % charset if charset else "", "Content-Transfer-Encoding: %s\n" % cte if cte else "", payload)
        judge(rec, "encoding", "From: a@x.example\nSubject: x\nMIME-Version: 1.0\n" + part, type=kind, encoding=cte, charset=charset, payload=payload)
    # In a multipart it must not spoil the rest.
    for charset, payload in itertools.product(charsets[:3], PAYLOADS):
        whole = "From: a@x.example\nSubject: hello\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=BB\n\n--BB\nContent-Type: text/plain\n\none two three\n\n--BB\nContent-Type: %s; charset=%s\n%s\n%s\n--BB--\n" % (
            kind, '"%s"' % charset if charset else "", "Content-Transfer-Encoding: %s\n" % cte if cte else "", payload)
        hits = judge(rec, "encoding", whole, type=kind, encoding=cte, charset=charset, payload=payload)
        if hits is not None:
            rec.check("encoding/rest", [n for n in ("B_CAP", "B_ONE", "H_NEG") if n in hits], ["B_CAP", "B_ONE", "H_NEG"], type=kind, encoding=cte, charset=charset, payload=payload)
    rec.trace()


LEAVES = {
    "text": "Content-Type: text/plain\n\none two\n",
    "html": "Content-Type: text/html\n\n<b>one</b> <a href=\"http://bad-uri.example/\">click</a>\n",
    "png": "Content-Type: image/png; name=\"pic.png\"\nContent-Transfer-Encoding: base64\n\n" + base64.b64encode(universe.png(30, 20)).decode() + "\n",
    "cutpng": "Content-Type: image/png; name=\"pic.png\"\nContent-Transfer-Encoding: base64\n\n" + base64.b64encode(universe.png(30, 20)[:18]).decode() + "\n",
    "gif": "Content-Type: image/gif; name=\"x.gif\"\nContent-Transfer-Encoding: base64\n\nR0lGODlh\n",
    "jpeg": "Content-Type: image/jpeg; name=\"x.jpg\"\nContent-Transfer-Encoding: base64\n\n/9j/4AAQSkZJRgABAQ==\n",
    "pdf": "Content-Type: application/pdf; name=\"doc.pdf\"\nContent-Transfer-Encoding: base64\n\n" + base64.b64encode(b"%PDF-1.4\n1 0 obj\n<< /Encrypt 1 >>\nendobj\n%%EOF").decode() + "\n",
    "rfc": "Content-Type: message/rfc822\n\nSubject: inner\nFrom: b@y.example\n\none inner\n",
    "status": "Content-Type: message/delivery-status\n\nReporting-MTA: dns; x\n",
    "nothing": "\n", "bare": "", "headless": "no header\n", "typeless": "Content-Type:\n\none\n",
}
WRAPS = {
    "mixed": "Content-Type: multipart/mixed; boundary=%(b)s\n\n%(parts)s--%(b)s--\n",
    "alternative": "Content-Type: multipart/alternative; boundary=\"%(b)s\"\n\npreamble\n%(parts)s--%(b)s--\nepilogue\n",
    "unclosed": "Content-Type: multipart/mixed; boundary=%(b)s\n\n%(parts)s",
    "boundless": "Content-Type: multipart/mixed\n\n%(parts)s--%(b)s--\n",
    "wrong": "Content-Type: multipart/related; boundary=other\n\n%(parts)s--%(b)s--\n",
    "digest": "Content-Type: multipart/digest; boundary=%(b)s\n\n%(parts)s--%(b)s--\n",
    "signed": "Content-Type: multipart/signed; boundary=%(b)s; micalg=x\n\n%(parts)s--%(b)s--\n",
    "encoded": "Content-Type: multipart/mixed; boundary=%(b)s\nContent-Transfer-Encoding: base64\n\n%(parts)s--%(b)s--\n",
    "rfc": "Content-Type: message/rfc822\n\nSubject: in\n%(one)s",
}


def structure(node, level=0):
    if node in LEAVES:
        return LEAVES[node]
    wrap, parts = node
    parts = [structure(p, level + 1) for p in parts]
    b = "BB%d" % level
    return WRAPS[wrap] % {"b": b, "parts": "".join("--%s\n%s\n" % (b, p) for p in parts), "one": parts[0] if parts else ""}


def run_structures(case, rec):
    for node in case:
        rec.state(node)
        judge(rec, "structure", "From: a@x.example\nSubject: x\nMIME-Version: 1.0\n" + structure(node), structure=node)
    rec.trace()


MARKUP = ["<a", "<link", " href", " src", "=", "\"", "'", ">", "</a>", "</b>", "<b>", "x", "http://", "[", "]", "?", "%", "&", "&#", "&#x9;", "&#999999999;", "<!", "<!--", "-->", "<![", "CDATA[", "<!DOCTYPE", "<?", "\n", "//", ":", u"\u2100", "\x00", "/a"]


def run_markup(case, rec):
    first, n, inside = case
    for rest in itertools.product(MARKUP, repeat=n):
        soup = first + "".join(rest)
        rec.state((case, rest))
        if inside:
            soup = "<a href=\"%s\">y</a>" % soup
        judge(rec, "markup", "From: a@x.example\nSubject: x\nMIME-Version: 1.0\nContent-Type: text/html\n\n<b>one</b> %s\n" % soup, markup=soup)
    rec.trace()


def run_nesting(case, rec):
    n, wrap, mix = case
    out = ""
    for i in range(n):
        if wrap == "rfc" or mix and i % 2:
            out += "Content-Type: message/rfc822\n\n"
        else:
            out += "Content-Type: multipart/%s; boundary=b%d\n\n--b%d\n" % (wrap if wrap != "rfc" else "mixed", i, i)
    rec.state(case)
    hits = judge(rec, "nesting", "From: a@x.example\nSubject: SPAM\nMIME-Version: 1.0\n" + out + "Content-Type: text/plain\n\none\n", levels=n, wrap=wrap, mix=mix)
    if hits is not None:
        rec.check("nesting/headers", "H_SUBJ" in hits, True, levels=n, wrap=wrap)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    cat = catalogue()
    cuts = [(n, tuple(range(i, min(i + 50, len(t))))) for n, t in cat.items() for i in range(0, min(len(t), 20000 if deep else 1500), 50)]
    lines = [(n, i, 1 if deep else 9) for n, t in cat.items() for i in range(min(t.count("\n"), 60))]
    odd = [(n, o) for n in NAMES for o in ODD if n != "Content-Type" or "image" not in o]
    few = [(n, o) for n in NAMES for o in ODD[::8 if deep else 28]]
    heads = [(b, (f,)) for b in BASES for f in odd] + [("relayed", f) for f in itertools.permutations(few, 2)]
    kids = list(LEAVES)
    flat = [(w, k) for w in WRAPS for c in range(3) for k in itertools.product(kids, repeat=c)]
    small = [(w, k) for w in WRAPS for k in [("text",), ("html", "png"), (), ("rfc",), ("headless", "pdf")]]
    nested = [(w, (k,)) for w in WRAPS for k in small] + [(w, (k, l)) for w in WRAPS for k in small for l in ("text", "bare")]
    if deep:
        nested += [(w, (k,)) for w in WRAPS for k in nested] + [(w, k) for w in ("mixed", "alternative", "unclosed", "digest") for k in itertools.product(kids, repeat=3)]
    trees = kids + flat + nested
    enc = [(k, c, CHARSETS if deep or k in ("text/plain", "text/html") and c in ("", "8bit", "base64", "quoted-printable") else CHARSETS[:10:3]) for k in TYPES for c in CTE]
    return [
        Space("cut", cuts, run_cut, "every message cut at every character", chunk=2),
        Space("lines", lines, run_lines, "lines lost, repeated, exchanged or replaced", chunk=2),
        Space("headers", heads, run_headers, "odd values of headers", chunk=20),
        Space("encodings", enc, run_encodings, "encodings and charsets that do not fit", chunk=1),
        Space("structures", [trees[i:i + 10] for i in range(0, len(trees), 10)], run_structures, "MIME structures, whole and broken", chunk=4),
        Space("markup", [("", 1, False), ("", 1, True)] + [(m, n, i) for m in MARKUP for n in ((1, 2) if deep else (1,)) for i in (False, True)] + ([(m, 3, True) for m in MARKUP] if deep else []), run_markup, "broken markup", chunk=1),
        Space("nesting", [(n, w, m) for n in (1, 5, 20, 50, 100, 150, 190, 199, 200, 201, 210, 400, 700, 900, 1000, 1500, 3000) for w in ("mixed", "alternative", "rfc") for m in (False, True)], run_nesting, "deep nesting", chunk=1),
    ]
