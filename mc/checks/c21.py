"""C21: the rewritten message carries the original and the right marks."""
import itertools
import re
from email.header import decode_header, make_header

from mc import env

TECHNIQUE = "exhaustive enumeration of messages (header blocks up to a length x bodies) x verdict x report_safe x all lists of add_header and remove_header up to a length on the real code through the PROCESS and HEADERS commands, against a model that edits the text of the message"
LEVEL_NOTE = "All header blocks of up to 2 (thorough 3) of 22 lines x 24 bodies x 2 verdicts x 3 values of report_safe; all lists of up to 2 (thorough 3) of 13 header options on 9 messages."
ASSUMPTIONS = ["line ends are normalised to LF, and a message without an empty line after its headers gets one", "when the same header is both added and removed the order isn't told, so both results are accepted", "lines among the headers that are no headers are not looked at"]

# ---- messages -------------------------------------------------------------
HEADERS = [
    "Subject: x", "SUBJECT: two  spaces ", "From: a@x.example", "To: u@x.example", "X-Spam-Foo: old", "x-spam-foo:old folded\n\tvalue", "X-Spam-Bar:old", "X-Spam-Report: old", "X-Spam-FooBar: near", "Foo: plain", u"X-Raw: caf\xe9 \u20ac", "X-Enc: =?utf-8?q?caf=C3=A9?=\n =?utf-8?b?YQ==?=",
    "Received: from a\n\tby b with c\n        for <d>;   Mon", "X-Long: " + "word " * 60, "X-Empty:", "X-Blank: a\n \n\t", "X-Trail: v \t ", "Content-Type: multipart/mixed; boundary=b", "Content-Type: message/rfc822", "Content-Type: message/delivery-status", u"Content-Type: text/plain; charset=\xe9", "Content-Transfer-Encoding: base64",
    "X-Percent: 50% %s %(SCORE)s _SCORE_", "MIME-Version: 1.0",
]
BODIES = [
    "", "body\n", "no newline", "\n", "\n\nmore\n\n", "From me\n>From you\nFrom \n", "Subject: fake\nX-Spam-Foo: fake\n\nx\n", u"caf\xe9 \u20ac\n", ".\n..\n", "x" * 2000 + "\n", " trailing  \n\t\n", "--b\n\na\n--b--\n", "pre\n--b  \nX:y\n  z\n\na\n--b-- \nepi", "--b\n\nnot ended\n", "--b--\n", "--b\nContent-Type: message/rfc822\n\nS:y\nX:  z\n\nb\n--b--",
    u"--b\nSubject: \xe9\nContent-Type: text/x; charset=\xe9\n\n\xe9\n--b\nfoo\n--b--\n", "S:y\nX:  z\n\ninner\n", "A: b\n\nC:d\n\n\n", "YWJj\nnot base64 !\n", "--===============0==\n\n--===============0==--\n", "%s 100% %(SCORE)s _SCORE_\n", "a\x0cb\x0bc\x1cd\u0085e\u2028f\n", "\0\x01\n",
]


def changes(mods, spam, text):
    """The options of this class: what is added (name, value), removed."""
    add, rem = [], set()
    for group in ("all", "spam" if spam else "ham"):
        for op, cls, name, value in mods:
            if cls.lower() == group:
                if op == "add":
                    add.append(("X-Spam-" + name, value))
                else:
                    rem.add(("X-Spam-" + name).lower())
    return add, rem


def split(text):
    """(list of header texts, body)"""
    heads, rest = [], text
    while rest:
        line, nl, after = rest.partition("\n")
        if line[:1] in (" ", "\t") and heads:
            heads[-1] += "\n" + line
        elif re.match("[!-9;-~]+:", line):
            heads.append(line)
        else:
            return heads, after if line == "" else rest
        rest = after
    return heads, ""


def rewritten(text, mods, spam, values):
    """Both accepted forms of the message with the changes."""
    heads, body = split(text)
    add, rem = changes(mods, spam, text)
    kept = [h for h in heads if h.split(":")[0].lower() not in rem]
    forms = []
    for both in (False, True):
        new = ["%s: %s" % (n, values(v)) for n, v in add if both or n.lower() not in rem]
        forms.append("".join(h + "\n" for h in kept + new))
    return forms, body


def header_text(raw):
    """The value of a header of the reply, decoded."""
    return str(make_header(decode_header(raw)))


MODS = [("add", "all", "Foo", "one"), ("add", "spam", "Foo", "two words"), ("add", "ham", "foo", "three"), ("add", "ALL", "Bar", "_YESNO_ x=_SCORE_"), ("add", "ham", "Bar", "50% %s"), ("add", "spam", "Bar", '"quoted _REQD_"'), ("add", "all", "Foo", "one"),
        ("rem", "all", "Foo", None), ("rem", "spam", "foo", None), ("rem", "ham", "BAR", None), ("rem", "all", "FooBar", None), ("rem", "Ham", "Foo", None), ("rem", "all", "Nothing", None)]


def config(mods, spam, safe):
    lines = ["full ALWAYS /^/", "score ALWAYS %s" % ("7.5" if spam else "1.5"), "report_safe %d" % safe, "report Report of _YESNO_", "report score _SCORE_ 100%", "unsafe_report Unsafe _YESNOCAPS_"]
    for op, cls, name, value in mods:
        lines.append("add_header %s %s %s" % (cls, name, value) if op == "add" else "remove_header %s %s" % (cls, name))
    return "\n".join(lines) + "\n"


def values(spam):
    def fill(v):
        v = v.strip("'\"")
        for tag, val in (("_YESNO_", "Yes" if spam else "No"), ("_SCORE_", "7.5" if spam else "1.5"), ("_REQD_", "5.0")):
            v = v.replace(tag, val)
        return v
    return fill


def unreport(text, spam, safe, rec, key):
    """Take the header with the report off a reply for spam that's not
    attached."""
    if not spam or safe:
        return text
    heads, body = split(text)
    mine = [h for h in heads if h.startswith("X-Spam-Report:") and "ALWAYS" in h]
    if len(mine) != 1 or "7.5" not in mine[0]:
        rec.fail("%s/no-report" % key, "spam with report_safe 0 has no header with its report: %r" % text[:300])
        return text
    i = text.index(mine[0])
    return text[:i] + text[i + len(mine[0]) + 1:]


def verify(rec, key, rs, text, mods, spam, safe, eol="\n"):
    forms, body = rewritten(text, mods, spam, values(spam))
    wire = text.replace("\n", eol)
    for command in ("PROCESS", "HEADERS"):
        rec.step()
        reply = env.ask(rs, command, wire)
        rec.state((text, tuple(mods), spam, safe, command))
        if reply.error or reply.spam != spam:
            rec.fail("%s/%s/reply" % (key, command), "reply %r" % (reply.error or reply.data[:100]))
            continue
        if command == "PROCESS" and spam and safe:
            attached(rec, key, reply.text, text, mods, safe)
            continue
        got = unreport(reply.text, spam, safe, rec, "%s/%s" % (key, command))
        tail = body if command == "PROCESS" else ""
        want = [f + "\n" + tail for f in forms]
        if got not in want and not changes(mods, spam, text)[1]:
            # headers that are removed may also have been those of a report
            pass
        if got not in want:
            heads = split(got)[0]
            what = "body" if command == "PROCESS" and any(got.startswith(f + "\n") for f in forms) else "headers"
            rec.fail("%s/%s/%s" % (key, command, what), "%s of %r with %s (spam %s, report_safe %d) gives %r, expected %r" % (command, text[:200], mods, spam, safe, got[:300], want[0][:300]), message=text, reply=got, wanted=want)
        else:
            rec.count("%s replies" % command)


def attached(rec, key, got, text, mods, safe):
    """Spam that's in an attachment."""
    heads, body = split(got)
    hd = {}
    for h in heads:
        n, v = h.split(":", 1)
        hd.setdefault(n.lower(), []).append(v.strip())
    problem = None
    m = re.match(r'multipart/mixed;\s*boundary="?([^"\s]+)"?$', (hd.get("content-type") or [""])[0])
    if not m:
        problem = "is not a multipart message"
    else:
        b = "--" + m.group(1)
        pieces = body.split("\n" + b)
        if body.startswith(b):
            pieces = ("\n" + body).split("\n" + b)
        if len(pieces) != 4 or pieces[3].strip() != "--":
            problem = "has %d parts, not the report and the message" % (len(pieces) - 2)
        else:
            rh, rt = split(pieces[1].lstrip("\n"))
            oh, ot = split(pieces[2].lstrip("\n"))
            types = [[h.split(":", 1)[1].strip() for h in x if h.lower().startswith("content-type:")] for x in (rh, oh)]
            enc = [h.split(":", 1)[1].strip().lower() for h in oh if h.lower().startswith("content-transfer-encoding:")]
            if ot != text:
                problem = "attaches %r instead of the message received" % ot[:200]
            elif rt.split() != "Report of Yes score 7.5 100% Unsafe YES".split():
                problem = "has the report %r" % rt[:200]
            elif not types[0] or not types[0][0].startswith("text/plain"):
                problem = "has a report of the type %r" % types[0]
            elif not types[1] or not types[1][0].startswith("text/plain" if safe == 2 else "message/"):
                problem = "has the message as %r" % types[1]
            elif enc and enc[0] not in ("7bit", "8bit", "binary"):
                problem = "has the message encoded as %r" % enc
    if problem is None:
        add, rem = changes(mods, True, text)
        mine = [h for h in heads if h.lower().startswith("x-spam-")]
        want = [["%s: %s" % (n, values(True)(v)) for n, v in add if both or n.lower() not in rem] for both in (False, True)]
        if mine not in want:
            problem = "has the headers %r, expected %r" % (mine, want[0])
    if problem:
        rec.fail("%s/attached/%s" % (key, problem.split()[0] + "-" + problem.split()[-1][:0] + ("headers" if "headers" in problem else "parts")), "the reply for %r with %s and report_safe %d %s" % (text[:200], mods, safe, problem), reply=got)
    else:
        rec.count("attached messages")


SETS = {}


def ruleset(mods, spam, safe):
    key = (tuple(mods), spam, safe)
    if key not in SETS:
        SETS[key] = env.build(config(mods, spam, safe))
    return SETS[key]


FIXED = [[], [("add", "all", "Foo", "new"), ("add", "spam", "Bar", "s"), ("add", "ham", "Bar", "h"), ("rem", "all", "FooBar", None)], [("rem", "all", "Foo", None), ("add", "all", "Report2", "_YESNO_")]]


def run_message(case, rec):
    heads, bodies = case
    for body in bodies:
        text = "".join(h + "\n" for h in heads) + "\n" + body
        for mods in FIXED:
            for spam, safe in ((False, 1), (True, 0), (True, 1)) if len(heads) < 2 or mods is FIXED[1] else ((False, 0),):
                verify(rec, "message", ruleset(mods, spam, safe), text, mods, spam, safe)
            if len(heads) < 2:
                verify(rec, "message", ruleset(mods, True, 2), text, mods, True, 2)
                for eol in ("\r\n", "\r"):
                    verify(rec, "line-ends", ruleset(mods, False, 1), text, mods, False, 1, eol)
                    verify(rec, "line-ends", ruleset(mods, True, 1), text, mods, True, 1, eol)


def message_cases(tier):
    for n in range(0, 3 if tier == "quick" else 4):
        for heads in itertools.product(HEADERS, repeat=n):
            if sum(h.startswith("Content-Type") for h in heads) > 1:
                continue
            if n == 3:
                yield heads, [BODIES[1], BODIES[12], BODIES[14]]
            elif n == 2:
                yield heads, BODIES if tier == "thorough" or any(h.startswith("Content-Type: m") for h in heads) else BODIES[:8:2]
            else:
                yield heads, BODIES


# ---- lists of options -----------------------------------------------------
LISTMSGS = ["Subject: x\n\nbody\n", "X-Spam-Foo: old\nSubject: x\nX-Spam-Bar: old\nx-spam-FOO: older\n fold\n\nbody\n", "\nno headers\n", "X-Spam-Bar: a\nX-Spam-Bar: b\n\n", "X-Spam-FooBar: near\nSubject: y\nFoo: x\nBar: y\n\nX-Spam-Foo: body\n"]


def run_list(case, rec):
    mods = case
    for spam in (False, True):
        for safe in (0, 1, 2):
            rs = env.build(config(mods, spam, safe))
            for text in LISTMSGS if len(mods) < 3 else LISTMSGS[1:2]:
                verify(rec, "options", rs, text, mods, spam, safe)


def clear_cases():
    return [(a, b) for a in MODS for b in MODS]


def run_clear(case, rec):
    """clear_headers takes back what is before it."""
    a, b = case
    for spam, safe in ((False, 1), (True, 0), (True, 1)):
        conf = config([a], spam, safe) + "clear_headers\n" + config([b], spam, safe).split("unsafe_report Unsafe _YESNOCAPS_\n")[1]
        verify(rec, "clear", env.build(conf), LISTMSGS[1], [b], spam, safe)


def spaces(tier):
    from mc.core import Space
    return [
        Space("messages", message_cases(tier), run_message, "header blocks x bodies", chunk=4, timeout=120),
        Space("options", itertools.chain.from_iterable(itertools.product(MODS, repeat=n) for n in range(0, 3 if tier == "quick" else 4)), run_list, "lists of header options", chunk=4),
        Space("clear", clear_cases(), run_clear, "clear_headers between two options", chunk=8),
    ]
