"""C40: free-mail rules look at the right addresses."""
import itertools
import os

from mc import env

TECHNIQUE = "exhaustive enumeration of the placement of addresses in headers and body under every configuration of domains, exemptions and limits, judged by the real rules on real messages against a model of the documented selection; histories of two messages"
LEVEL_NOTE = "13 kinds of addresses (also no address) in From, Reply-To and body, 7 in each of the six headers of the sender; 18 lists of domains on 40 addresses; all combinations of numbers of addresses and limits; bodies in five encodings; all pairs of messages in one process."
ASSUMPTIONS = ["util_rb_tld lists the top level domains, as without it the plugin finds no addresses outside of the sender headers", "an address counts once however often it is there; a limit of n allows less than n addresses, as in the tests", "the reply option with a Reply-To of free mail and another From is not judged (its comment and its documentation differ)", "whether addresses that differ only in case are different is not judged"]

RULES = "".join("header %s eval:%s\nscore %s 0.1\n" % (n, e, n) for n, e in (
    ("FROM", "check_freemail_from()"), ("FROMRE", "check_freemail_from('\\d\\@')"), ("HDR", "check_freemail_header('From')"), ("HDRRE", "check_freemail_header('From', '\\d\\@')"),
    ("RT", "check_freemail_header('Reply-To')"), ("REPLYTO", "check_freemail_replyto('replyto')"), ("REPLY", "check_freemail_replyto('reply')"), ("DEFAULT", "check_freemail_replyto()"),
    ("BODY", "check_freemail_body()"), ("BODYRE", "check_freemail_body('\\d\\@')")))
CONF = "loadplugin oa.plugins.free_mail.FreeMail\nutil_rb_tld example test org\nutil_rb_2tld co.test\n"
DOMAINS = "freemail_domains free.example mail.*.test w?b.example\nfreemail_domains *.wild.example\nfreemail_whitelist ok@free.example ok.wild.example\n"
# address: whether it is one of free mail
ADDRESSES = {"": False, "joe@free.example": True, "ann@free.example": True, "joe5@free.example": True, "joe@mail.zz.test": True, "joe7@web.example": True, "x@other.example": False, "ok@free.example": False,
             "me@ok.wild.example": False, "me@a.wild.example": True, "abuse@free.example": False, "joe@sub.free.example": False, "x3@other.example": False}
SENDERS = ["From", "Envelope-Sender", "Resent-Sender", "X-Envelope-From", "Resent-From"]
_sets = {}


def ruleset(conf):
    key = (os.getpid(), conf)
    if key not in _sets:
        if len(_sets) > 60:
            _sets.clear()
        _sets[key] = env.build(CONF + conf + RULES)
    return _sets[key]


def digit(a):
    return a.split("@")[0][-1:].isdigit()


def expected(senders, frm, reply, body, free, max_emails=5, max_free=3, skip=True, bulk=False):
    """The rules that match, for the first addresses of the sender headers, of
    From and of Reply-To, and those of the body."""
    hits = set()
    mine = [a for a in senders if free(a)]
    if mine:
        hits.add("FROM")
    if any(digit(a) for a in mine):
        hits.add("FROMRE")
    if any(free(a) for a in frm):
        hits.add("HDR")
    if any(free(a) and digit(a) for a in frm):
        hits.add("HDRRE")
    if any(free(a) for a in reply):
        hits.add("RT")
    body = set(body)
    found = {a for a in body if free(a)}
    usable = not (skip and len(body) >= max_emails) and len(found) < max_free
    if not usable:
        found = set()
    if found:
        hits.add("BODY")
    if any(digit(a) for a in found):
        hits.add("BODYRE")
    f, r = (frm or [""])[0], (reply or [""])[0]
    if not bulk:
        if free(f) and free(r) and f != r:
            hits |= {"REPLYTO", "REPLY", "DEFAULT"}
        if free(r) and found - {r}:
            hits |= {"REPLYTO", "DEFAULT", "REPLY" if free(f) else "EITHER"}
        if not r and free(f) and found - {f}:
            hits.add("REPLY")
    return sorted(hits)


def text(headers, body, kind="plain"):
    import base64
    import quopri
    head = "".join("%s: %s\n" % h for h in headers) + "Subject: s\nMime-Version: 1.0\n"
    if kind == "plain":
        return head + "\n" + body + "\n"
    if kind == "html":
        return head + "Content-Type: text/html\n\n<p>%s</p>\n" % body
    if kind == "link":
        return head + "Content-Type: text/html\n\n" + "".join('<a href="mailto:%s">x</a> ' % a for a in body.split()) + "\n"
    if kind == "base64":
        return head + "Content-Type: text/plain; charset=utf-8\nContent-Transfer-Encoding: base64\n\n" + base64.encodebytes(body.encode()).decode()
    if kind == "qp":
        return head + "Content-Type: text/plain\nContent-Transfer-Encoding: quoted-printable\n\n" + body.replace("@", "=40").replace("free", "fr=\nee") + "\n"
    parts = "".join("--bb\nContent-Type: %s\n\n%s\n" % (t, a) for t, a in zip(itertools.cycle(["text/plain", "text/html", "text/plain"]), body.split()))
    return head + "Content-Type: multipart/mixed; boundary=bb\n\n" + parts + "--bb\nContent-Type: application/pdf\n\nbin@free.example\n--bb--\n"


def spaces(tier):
    deep = tier == "thorough"
    from mc.core import Space
    names = list(ADDRESSES)
    free = ADDRESSES.get

    def judge(rs, rec, message, want, label, **info):
        got = sorted(env.matched(env.check(rs, message)))
        rec.state(message)
        if "EITHER" in want:
            got, want = ([n for n in names if n not in ("REPLY", "EITHER")] for names in (got, want))
        rec.check(label, got, want, **info)

    def places():
        for f in names:
            for r in names:
                yield (f, r)

    def run_places(case, rec):
        f, r = case
        rs = ruleset(DOMAINS)
        for n in range(0, 3):
            for body in itertools.combinations(names[1:], n):
                rec.step()
                headers = [h for h in (("From", f and "Joe <%s>" % f), ("Reply-To", r)) if h[1]]
                judge(rs, rec, text(headers, "write to %s now" % " and ".join(body)), expected([f], [f] if f else [], [r] if r else [], body, free), "places", frm=f, reply=r, body=body)
        rec.trace()

    few = ["", "joe@free.example", "joe5@free.example", "x@other.example", "ok@free.example", "joe", "\"a@b\" <ann@free.example>"]

    def sender_cases():
        for first in few:
            for second in few:
                yield (first, second)

    def address(v):
        return v.split("<")[-1].strip(">") if v else ""

    def run_senders(case, rec):
        """Two (three) of the headers have an address, in every order."""
        first, second = case
        rs = ruleset(DOMAINS)
        for a, b in itertools.permutations(SENDERS, 2):
            for third in (few if deep else few[:3]):
                rec.step()
                c = [h for h in SENDERS if h not in (a, b)][0]
                headers = [h for h in ((a, first), (b, second), (c, third)) if h[1]]
                values = dict(headers)
                frm = address(values.get("From", ""))
                frm = frm if "@" in frm else ""
                senders = [address(v) for _, v in headers]
                judge(rs, rec, text(headers, "nothing"), expected([s for s in senders if "@" in s], [frm] if frm else [], [], [], lambda x: bool(ADDRESSES.get(x))), "senders", headers=headers)
        rec.trace()

    several = ["joe@free.example", "joe5@free.example", "x@other.example", "x3@other.example", "ok@free.example"]

    def list_cases():
        for n in (2, 3):
            for frm in itertools.permutations(several, n):
                yield frm

    def run_list(frm, rec):
        """Several addresses in one header."""
        rs = ruleset(DOMAINS)
        for reply in ([],) + tuple([a, b] for a, b in itertools.permutations(several[:3], 2)):
            rec.step()
            headers = [("From", ", ".join(frm))] + ([("Reply-To", ", ".join(reply))] if reply else [])
            judge(rs, rec, text(headers, "nothing"), expected(frm, list(frm), reply, [], free), "lists", frm=frm, reply=reply)
        rec.trace()

    LISTS = {"a.example": ["a.example"], "a.*": ["a.x", "a.example"], "*.example": ["a.example", "b.example"], "a?.example": ["ab.example", "a5.example"], "?.example": ["a.example", "b.example"], "a*.example": ["a.example", "ab.example", "a5.example", "a-b.example"],
             "*": [], "A.Example": ["a.example"], "A*.EXAMPLE": ["a.example", "ab.example", "a5.example", "a-b.example"], "a_b.example": [], "a.*.test": ["a.b.test", "a.a-b.test"], "*.*.test": ["a.b.test", "b.b.test", "a.a-b.test"], "?.?.test": ["a.b.test", "b.b.test"],
             "a.example.test": ["a.example.test"], "a(b.example": [], "ab.exampl?": ["ab.example"], "a??.test": ["aab.test"], "*b.example": ["b.example", "ab.example", "a-b.example"]}
    HOSTS = ["a.example", "b.example", "ab.example", "a5.example", "a-b.example", "a.b.test", "b.b.test", "a.a-b.test", "a.example.test", "aab.test", "a.b.c.test", "axexample.test", "xa.example", "a.examplex.test"]

    def domain_cases():
        for n in (1, 2):
            for entries in itertools.combinations(sorted(LISTS), n):
                yield entries

    def run_domains(entries, rec):
        import re
        from fnmatch import translate

        def listed(host):
            for e in entries:
                if not re.match(r"^[a-z0-9.*?-]+$", e, re.I):
                    continue
                if re.match("^%s$" % re.escape(e).replace(r"\*", "[^.]*").replace(r"\?", "[^.]"), host, re.I):
                    return True
            return False
        confs = ["freemail_domains %s\n" % " ".join(entries)] + (["".join("freemail_domains %s\n" % e for e in reversed(entries))] if len(entries) > 1 else [])
        for conf in confs:
            rs = ruleset(conf)
            for host in HOSTS:
                for shown in (host, host.upper(), host.title()):
                    rec.step()
                    a = "joe@" + shown
                    hit = listed(host)
                    judge(rs, rec, text([("From", a)], "for ann@%s" % shown), expected([a], [a], [], ["ann@" + shown], lambda x: bool(x) and hit), "domains", entries=entries, host=shown)
        rec.trace()

    def number_cases():
        for me in (None, 0, 1, 2, 3, 5):
            for mf in (None, 0, 1, 2, 3, 9):
                for skip in (None, 0, 1):
                    yield (me, mf, skip)

    def run_numbers(case, rec):
        me, mf, skip = case
        conf = DOMAINS + "".join("freemail_%s %d\n" % (n, v) for n, v in (("max_body_emails", me), ("max_body_freemails", mf), ("skip_when_over_max", skip)) if v is not None)
        rs = ruleset(conf)
        for free_n in range(0, 5):
            for other in range(0, 5):
                for again in (1, 2):
                    if skip == 0 and free_n >= (3 if mf is None else mf):
                        # Whether the limit of freemails is one then is unclear.
                        continue
                    rec.step()
                    found = ["f%d@free.example" % i for i in range(free_n)] + ["o%d@other.example" % i for i in range(other)]
                    want = expected(["joe@free.example"], ["joe@free.example"], ["joe@mail.zz.test"][:again - 1], found, lambda x: x.endswith("@free.example") or x.endswith("zz.test"), 5 if me is None else me, 3 if mf is None else mf, skip != 0)
                    headers = [("From", "joe@free.example")] + ([("Reply-To", "joe@mail.zz.test")] if again == 2 else [])
                    judge(rs, rec, text(headers, " ".join(found * again)), want, "numbers", free=free_n, other=other, again=again)
        rec.trace()

    BULK = {"joe@x.example": False, "": False, "bounce-1@x.example": True, "postmaster@x.example": True, "list-request@x.example": True, "no-reply@x.example": True, "noreply@x.example": True, "a=b@x.example": True, "double-bounce@x.example": True, "owner-x@x.example": True,
            "owner@x.example": False, "requests@x.example": False, "reply@x.example": False, "postmasters@x.example": False, "x-owner@x.example": True, "return-x@x.example": True}

    def bulk_cases():
        for sender in BULK:
            for option in (None, 0, 1):
                yield (sender, option)

    def run_bulk(case, rec):
        sender, option = case
        rs = ruleset(DOMAINS + ("" if option is None else "freemail_skip_bulk_envfrom %d\n" % option))
        for f, r, body in itertools.product(("joe@free.example", "x@other.example"), ("", "ann@free.example"), ((), ("joe5@free.example",))):
            rec.step()
            received = [("Received", "from h.example (h.example [45.1.2.3]) by in.example (Postfix) with SMTP id X1%s; Mon, 1 Jan 2018 00:00:00 +0000" % (" (envelope-from <%s>)" % sender if sender else ""))]
            headers = received + [("From", f)] + ([("Reply-To", r)] if r else [])
            if "=" in sender:
                # Only what is before the last one is kept of it.
                headers[0] = ("X-Nothing", "x")
                headers.append(("Return-Path", "<%s>" % sender))
            judge(rs, rec, text(headers, " ".join(body)), expected([f], [f], [r] if r else [], body, free, bulk=BULK[sender] and option != 0), "bulk", sender=sender, reply=r)
        rec.trace()

    KINDS = ["plain", "html", "link", "base64", "qp", "multi"]

    def kind_cases():
        for kind in KINDS:
            for n in range(0, 4):
                for body in itertools.permutations(["joe@free.example", "joe5@free.example", "x@other.example", "me@a.wild.example"], n):
                    yield (kind, body)

    def run_kinds(case, rec):
        kind, body = case
        rs = ruleset(DOMAINS)
        for r in ("", "ann@free.example"):
            rec.step()
            headers = [("From", "joe@free.example")] + ([("Reply-To", r)] if r else [])
            judge(rs, rec, text(headers, " ".join(body), kind), expected(["joe@free.example"], ["joe@free.example"], [r] if r else [], body, free), "kinds/%s" % kind, body=body, reply=r)
        rec.trace()

    short = ["", "joe@free.example", "x@other.example", "joe5@free.example", "joe@mail.zz.test"]
    MESSAGES = [(f, r, b) for f in short[:3] for r in short[:2] for b in ((), ("joe5@free.example",), ("x@other.example",), ("joe@free.example", "joe@mail.zz.test", "joe5@free.example"))]

    def pair_cases():
        for i in range(len(MESSAGES)):
            yield i

    def run_pairs(i, rec):
        """Nothing is left of the message before."""
        for second in MESSAGES:
            rs = ruleset(DOMAINS)
            for f, r, b in (MESSAGES[i], second):
                rec.step()
                headers = [h for h in (("From", f), ("Reply-To", r)) if h[1]]
                judge(rs, rec, text(headers, " ".join(b)), expected([f], [f] if f else [], [r] if r else [], b, free), "pairs", first=MESSAGES[i], second=second)
        rec.trace()

    return [Space("places", places(), run_places, "From x Reply-To x up to two addresses in the body", chunk=4),
            Space("senders", sender_cases(), run_senders, "addresses in the headers of the sender", chunk=2),
            Space("lists", list_cases(), run_list, "several addresses in From and Reply-To", chunk=4),
            Space("domains", domain_cases(), run_domains, "listed domains x hosts", chunk=4),
            Space("numbers", number_cases(), run_numbers, "limits x numbers of addresses", chunk=4),
            Space("bulk", bulk_cases(), run_bulk, "envelope senders of bulk mail", chunk=4),
            Space("kinds", kind_cases(), run_kinds, "kinds of bodies", chunk=8),
            Space("pairs", pair_cases(), run_pairs, "histories of two messages", chunk=2)]
