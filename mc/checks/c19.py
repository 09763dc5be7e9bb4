"""C19: body, rawbody, full, uri and mimeheader rules see the documented text."""
import base64
import binascii
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of MIME messages (trees up to a depth x leaf contents x types x charsets x transfer encodings x line ends, HTML documents out of a grammar, all byte strings up to a length) on the real code, each against rules that match only the exact text an independent model of the message gives"
LEVEL_NOTE = "Every leaf combination alone and in a multipart, all trees up to depth 2 and 3 leaves (thorough: depth 3), HTML of up to 4 (5) tokens of 22, byte strings of up to 3 (4) of 9 bytes in 6 charsets, texts of up to 3 (4) of 19 URI tokens."
ASSUMPTIONS = ["the content of script and style elements, unfinished tags and the white space left where a tag was are not specified", "a message arrives as decoded text, so parts that are not transfer-encoded are read as they are"]


def esc(text):
    """A pattern for exactly this text."""
    out = []
    for c in text:
        n = ord(c)
        out.append(c if n < 128 and c.isalnum() else "\\x%02x" % n if n < 256 else "\\u%04x" % n if n < 65536 else "\\U%08x" % n)
    return "".join(out)


def qp(data, eol):
    """Quoted-printable with soft breaks and everything unusual quoted."""
    lines = []
    for line in data.split(b"\n") if eol == "lf" else [data]:
        s = ""
        for i in range(len(line)):
            c = line[i:i + 1]
            s += c.decode() if c.isalnum() else "=%02X" % ord(c)
            if i % 7 == 5 and i + 1 < len(line):
                s += "=\n"
        lines.append(s)
    return "\n".join(lines)


def b64(data):
    s = base64.b64encode(data).decode()
    return "\n".join(s[i:i + 24] for i in range(0, len(s), 24))


def uu(data):
    return "begin 644 x\n" + "".join(binascii.b2a_uu(data[i:i + 45]).decode() for i in range(0, len(data), 45)) + " \nend\n"


class Leaf(object):
    """One leaf: how it's written and what it says."""
    def __init__(self, ctype, cte, payload, decoded, body=None, headers="", uris=(), html=False):
        self.ctype, self.cte, self.payload, self.decoded, self.headers, self.uris = ctype, cte, payload, decoded, headers, uris
        self.body = body
        if decoded is not None and body is None:
            self.body = esc(decoded.replace("\r\n", "\n").replace("\r", "\n").replace("\n", " "))

    def leaves(self):
        return [self]

    def head(self):
        return self.headers + ("Content-Type: %s\n" % self.ctype if self.ctype else "") + ("Content-Transfer-Encoding: %s\n" % self.cte if self.cte else "")

    def write(self, n=0):
        return self.head(), self.payload


class Multi(object):
    def __init__(self, kind, parts, headers=""):
        self.kind, self.parts, self.headers = kind, parts, headers

    def leaves(self):
        return [x for p in self.parts for x in p.leaves()]

    def write(self, n=0):
        b = "bd%dx" % n
        out = "preamble http://preamble.example/\n"
        for i, p in enumerate(self.parts):
            h, t = p.write(n * 10 + i + 1)
            out += "--%s\n%s\n%s\n" % (b, h, t)
        return self.headers + "Content-Type: multipart/%s; boundary=%s\n" % (self.kind, b), out + "--%s--\nepilogue http://epilogue.example/\n" % b


class Rfc822(object):
    def __init__(self, inner, headers=""):
        self.inner, self.headers = inner, headers

    def leaves(self):
        return self.inner.leaves()

    def write(self, n=0):
        h, t = self.inner.write(n * 10 + 7)
        return self.headers + "Content-Type: message/rfc822\n", "Subject: inner http://subject.example/\nX-Inner: in%d\n%s\n%s" % (n, h, t)


EOLS = {"lf": "\n", "crlf": "\r\n", "cr": "\r"}
HEAD = "From: a@x.example\nX-Url: http://header.example/\nMIME-Version: 1.0\n"


def verify(rec, key, tree, eol="lf", subjects=(), mime=(), nomime=("nope",), extra="", **info):
    """One message against the rules made for it. subjects: (raw, decoded)."""
    h, t = tree.write()
    text = "".join("Subject: %s\n" % s[0] for s in subjects) + HEAD + extra + h + "\n" + t
    leaves = [x for x in tree.leaves() if x.decoded is not None]
    body = "\\x20".join([esc(s[1]) for s in subjects] + [x.body for x in leaves])
    raw = "\n".join(x.decoded for x in leaves)
    uris = sorted(set(u for x in leaves for u in x.uris))
    rules = ["body B /\\A%s\\Z/" % body, "rawbody R /\\A%s\\Z/" % esc(raw), "full F /\\A%s\\Z/" % esc(text)]
    want = set("BRF")
    for i, u in enumerate(uris):
        rules.append("uri U%d /\\A%s\\Z/" % (i, esc(u)))
        want.add("U%d" % i)
    rules.append("uri UX /\\A(?!(?:%s)\\Z)/" % "|".join(esc(u) for u in uris) if uris else "uri UX /\\A/")
    for i, (name, value) in enumerate(mime):
        rules.append("mimeheader M%d %s =~ /\\A%s\\Z/" % (i, name, esc(value)))
        want.add("M%d" % i)
    for i, value in enumerate(nomime):
        rules.append("mimeheader N%d X-Part =~ /%s/" % (i, value))
    rs = env.build("\n".join(rules) + "\n")
    rec.step()
    got = set(env.matched(env.check(rs, text.replace("\n", EOLS[eol]))))
    rec.state((text, eol))
    if got != want:
        miss, more = sorted(want - got), sorted(got - want)
        rec.fail("%s/%s" % (key, "-".join("no%s" % m.rstrip("0123456789") if m in want else m for m in sorted(set(x.rstrip("0123456789") for x in miss)) + more)),
                 "rules %r do not match and %r match for the message %r (line ends %s); body expected %s" % (miss, more, text[len(HEAD):][:300], eol, body[:200]), message=text, rules=rules, **info)
    else:
        rec.count("messages whose texts are right")
    return rs


# ---- leaves ---------------------------------------------------------------
CONTENTS = {"ascii": u"Hello World", "lines": u"one\ntwo\n\nthree", "end": u"line\n", "empty": u"", "accents": u"caf\xe9 na\xefve\nx", "cyr": u"\u0411\u043e\u0431\n\u20ac?", "astral": u"a\U0001f600b", "spaces": u"  in  dent \t x\n", "dots": u".\n..\n. x",
            "url": u"see http://u.example/p?q=1 now", "nbsp": u"a\xa0b"}
CHARSETS = ["utf-8", "UTF_8", "iso-8859-1", "koi8-r", "us-ascii", "x-nosuch", "quopri", None]
TYPES = ["text/plain", "TEXT/Plain", "text/x-other", "text/csv", None, "garbage", "text/plain; format=flowed"]
ENCODINGS = [None, "7bit", "8bit", "binary", "x-nosuch", "quoted-printable", "QUOTED-PRINTABLE", "base64", "Base64", "x-uuencode"]


def decode(data, charset):
    try:
        return data.decode(charset or "ascii", "ignore")
    except LookupError:
        return data.decode("ascii", "ignore")


def leaf(content, ctype, charset, cte, inner="lf", headers=""):
    text = CONTENTS[content]
    uris = ["http://u.example/p?q=1"] if content == "url" else []
    full = ctype
    if charset and ctype and "/" in ctype:
        full = "%s; charset=%s" % (ctype, charset)
    elif charset:
        return None
    enc = (cte or "").lower()
    if enc not in ("quoted-printable", "base64", "x-uuencode"):
        return Leaf(full, cte, text, text, headers=headers, uris=uris) if inner == "lf" else None
    src = text.replace("\n", EOLS[inner])
    try:
        data = src.encode(charset or "ascii")
    except LookupError:
        data = src.encode("utf-8")
    except UnicodeError:
        return None
    payload = b64(data) if enc == "base64" else uu(data) if enc == "x-uuencode" else qp(data, inner)
    return Leaf(full, cte, payload, decode(data, charset), headers=headers, uris=uris)


def run_leaf(case, rec):
    charset, ctype, cte = case
    for content in CONTENTS:
        for inner in EOLS:
            x = leaf(content, ctype, charset, cte, inner)
            if x is None or "x-uuencode" == cte and content == "empty":
                continue
            verify(rec, "leaf-%s-%s" % (cte, "ascii" if CONTENTS[content].isascii() else "other"), x, "lf")
            for eol in EOLS:
                if eol != "lf" and content not in ("lines", "accents"):
                    continue
                if len(x.payload) and x.payload.endswith("\n"):
                    continue
                verify(rec, "multi-%s-%s" % (cte, "ascii" if CONTENTS[content].isascii() else "other"), Multi("mixed", [x, Leaf("text/plain", None, "last", "last")]), eol)


# ---- trees ----------------------------------------------------------------
def mk(kind, n):
    head = "X-Part: p%d\n" % n
    if kind == "plain":
        return Leaf("text/plain", "7bit", "t%d\nx" % n, "t%d\nx" % n, headers=head)
    if kind == "html":
        return Leaf("text/html; charset=utf-8", "base64", b64(("<p>h%d \xe9</p>" % n).encode("utf-8")), u"<p>h%d \xe9</p>" % n, body="\\s*h%d\\x20\\xe9\\s*" % n, headers=head)
    if kind == "bare":
        return Leaf(None, None, "b%d http://b%d.example/" % (n, n), "b%d http://b%d.example/" % (n, n), headers=head, uris=["http://b%d.example/" % n])
    if kind == "image":
        return Leaf("image/png", "base64", b64(b"img http://image.example/ x"), None, headers=head)
    if kind == "app":
        return Leaf("application/octet-stream; name=a.txt", None, "app%d http://app.example/" % n, None, headers=head)
    if kind == "qp":
        return Leaf("text/plain; charset=iso-8859-1", "quoted-printable", "q%d =E9=\n z" % n, u"q%d \xe9 z" % n, headers=head)


LEAVES = ["plain", "html", "bare", "image", "app", "qp"]


def shapes(depth, leaves):
    """All trees with exactly this number of leaves: "L", ("m", ...), ("r", t)."""
    if leaves == 1:
        yield "L"
    if depth == 0:
        return
    for kinds in compositions(leaves):
        for parts in itertools.product(*[list(shapes(depth - 1, k)) for k in kinds]):
            yield ("m",) + parts
    for t in shapes(depth - 1, leaves):
        yield ("r", t)


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def make(shape, kinds, mime, kind="mixed"):
    if shape == "L":
        n = len(mime)
        mime.append(("X-Part", "p%d" % n))
        return mk(kinds.pop(0), n)
    n = len(mime)
    mime.append(("X-Part", "p%d" % n))
    head = "X-Part: p%d\n" % n
    if shape[0] == "m":
        return Multi(kind, [make(s, kinds, mime, "alternative") for s in shape[1:]], head)
    return Rfc822(make(shape[1], kinds, mime), head)


def tree_cases(tier):
    def gen():
        for n in (1, 2, 3):
            for shape in shapes(3 if tier == "thorough" else 2, n):
                for eol in EOLS:
                    yield (shape, n, eol)
    return gen


def run_tree(case, rec):
    shape, n, eol = case
    for kinds in itertools.product(LEAVES if n < 3 or eol == "lf" else LEAVES[:3], repeat=n):
        mime = []
        tree = make(shape, list(kinds), mime)
        # the headers of the whole message may or may not count as those of a part
        verify(rec, "tree", tree, eol, subjects=[("Sub ject", "Sub ject")], mime=mime[1:], nomime=("p%d" % len(mime),))


# ---- headers --------------------------------------------------------------
SUBJECTS = [("plain", "plain"), ("=?utf-8?q?caf=C3=A9?=", u"caf\xe9"), ("", ""), ("=?utf-8?b?YWI=?= =?utf-8?b?Y2Q=?=", "abcd"), (u"raw \u20ac", u"raw \u20ac"), ("two  spaces", "two  spaces"), ("see http://subject.example/", "see http://subject.example/")]
MIMEHEADERS = [("Content-Description", "plain", "plain"), ("content-description", "=?utf-8?q?caf=C3=A9?=", u"caf\xe9"), ("X-Thing", "a; b", "a; b"), ("X-THING", "second", "second")]


def run_subjects(case, rec):
    for tree in (Leaf("text/plain", None, "body\n", "body\n"), Leaf("text/html", None, "<b>hi</b>", "<b>hi</b>", body="hi"), Multi("mixed", [Leaf("image/gif", "base64", "AAAA", None)]), Multi("mixed", [Leaf("text/plain", None, "a", "a"), Leaf("text/plain", None, "b", "b")])):
        verify(rec, "subjects", tree, subjects=case)
        lower = [s for s in case]
        h, t = tree.write()
        rec.trace()
        verify(rec, "subjects-rfc822", Rfc822(tree), subjects=lower)


def run_mime(case, rec):
    """Every assignment of these headers to the parts of a small message."""
    where = case
    for ops in (("=~",), ("!~",)):
        parts = [[], [], []]
        for (name, rawv, val), w in zip(MIMEHEADERS, where):
            for i in range(3):
                if w & (1 << i):
                    parts[i].append((name, rawv, val))
        heads = ["".join("%s: %s\n" % (n, r) for n, r, v in p) for p in parts]
        tree = Multi("mixed", [Leaf("text/plain", None, "a", "a", headers=heads[0]), Multi("alternative", [Leaf("text/html", None, "b", "b", headers=heads[1])], heads[2]), Leaf("image/png", None, "zz", None)])
        h, t = tree.write()
        text = HEAD + h + "\n" + t
        rules, want = [], set()
        for target in ("Content-Description", "CONTENT-description", "X-Thing", "x-thing", "X-None"):
            for mod in ("", ":raw"):
                for pi, pat in enumerate(["^plain$", "^caf\\xe9$", "^=\\?utf-8\\?q", "^a; b$", "^second$", "^$", "."]):
                    name = "M%d" % len(rules)
                    rules.append("mimeheader %s %s%s %s /%s/" % (name, target, mod, ops[0], pat))
                    vals = [(r if mod else v) for p in parts for n, r, v in p if n.lower() == target.lower()]
                    hit = [v for v in vals if (v == "plain", v == u"caf\xe9", v.startswith("=?utf-8?q"), v == "a; b", v == "second", v == "", v != "")[pi]]
                    # as with the header rules: one header that does (not) match
                    if hit if ops[0] == "=~" else len(hit) < len(vals):
                        want.add(name)
        rs = env.build("\n".join(rules) + "\n")
        got = set(env.matched(env.check(rs, text)))
        rec.step()
        rec.state((text, ops))
        diff = sorted(got ^ want, key=lambda n: int(n[1:]))
        if diff:
            rec.fail("mimeheader/%s" % ops[0], "%s %s for the parts %r" % (rules[int(diff[0][1:])], "matches" if diff[0] in got else "does not match", parts), diff=[rules[int(d[1:])] for d in diff[:5]])
        else:
            rec.count("mimeheader messages")


# ---- HTML -----------------------------------------------------------------
# (source, text it shows or None where a tag is)
TOKENS = [("ab", "ab"), (" ", " "), ("\n", " "), ("<b>", None), ("</b>", None), ("<br/>", None), ("<a href='http://h.example/x'>", None), ('<img alt="a > b">', None), ("<!-- c -->", None), ("<!DOCTYPE html>", None), ("<!foo bar>", None), ("<![if x]>", None), ("<![bad]>", None),
          ("<![9]>", None), ("<?pi x?>", None), ("&amp;", "&"), ("&#105;", "i"), ("&#x69;", "i"), ("&lt;b&gt;", "<b>"), ("AT&T", "AT&T"), ("& ", "& "), (u"\xe9", u"\xe9"), ("&nbsp;", u"\xa0"), ("&eacute;", u"\xe9"), ("&nosuch;", "&nosuch;"), ("1 < 2", "1 < 2")]
QUICK_TOKENS = [t for t in TOKENS if t[0] not in ("</b>", "<!foo bar>", "&#x69;", "&eacute;")]


def html_pattern(tokens):
    """What's left of it: the text, with some white space where tags were."""
    runs, cur = [], ""
    for src, text in tokens:
        if text is None:
            runs.append(cur)
            cur = ""
        else:
            cur += text
    runs.append(cur)
    out = ["\\s*"]
    for r in runs:
        words = r.replace(u"\xa0", " ").split()
        for i, w in enumerate(words):
            if i:
                out.append("\\s+")
            # a less-than sign alone is no tag, but may be cut there
            out.append("".join("\\s*%s\\s*" % esc(c) if c == "<" else esc(c) for c in w))
        if words:
            out.append("\\s*")
    return "".join(out)


def run_html(case, rec):
    seq = case
    html = "".join(s for s, t in seq)
    if not html:
        return
    uris = ["http://h.example/x"] if "h.example" in html else []
    pat = html_pattern(seq)
    verify(rec, "html", Leaf("text/html; charset=utf-8", "8bit", html, html, body=pat, uris=uris))
    if len(seq) <= 2:
        verify(rec, "html-b64", Multi("alternative", [Leaf("text/plain", None, "p", "p"), Leaf("TEXT/HTML; charset=utf-8", "base64", b64(html.replace("\n", "\r\n").encode("utf-8")), html.replace("\n", "\r\n"), body=pat, uris=uris)]))


def html_cases(tier):
    def gen():
        toks = QUICK_TOKENS
        for n in range(1, 4 if tier == "quick" else 5):
            pool = TOKENS if n <= 2 else toks if n == 3 else toks[::2]
            for seq in itertools.product(pool, repeat=n):
                # glued together these would be something else
                src = "".join(s for s, t in seq)
                ok = True
                for a, b in zip(seq, seq[1:]):
                    if a[0] == "AT&T" and b[1] is not None and (b[0][0].isalnum() or b[0][0] in u";#\xe9"):
                        ok = False
                if ok:
                    yield seq
    return gen


# ---- undecodable bytes ----------------------------------------------------
BYTES = [b"a", b"\xff", b"\xc3", b"\xa9", b"\x80", b"\xe2", b"\x82", b"\xac", b"\n"]


def run_bytes(case, rec):
    charset, data = case
    data = b"A" + data + b"z"
    want = decode(data, charset)
    if "\x85" in want or u"\x1c" in want:
        return
    head = "text/plain" + ("; charset=%s" % charset if charset else "")
    verify(rec, "bytes-%s" % charset, Multi("mixed", [Leaf(head, "base64", b64(data), want), Leaf(head, "quoted-printable", qp(data, "lf"), want)]))
    # the model itself: valid text loses nothing, bytes lose only themselves
    if charset == "utf-8":
        left = want.encode("utf-8")
        it = iter(data)
        if not all(any(b == d for d in it) for b in left):
            rec.fail("model", "model is wrong for %r" % data)


def byte_cases(tier):
    def gen():
        for charset in ("utf-8", "us-ascii", None, "iso-8859-1", "koi8-r", "x-nosuch"):
            for n in range(0, 4 if tier == "quick" else 5):
                for seq in itertools.product(BYTES, repeat=n):
                    if n == 4 and charset not in ("utf-8", None):
                        continue
                    yield (charset, b"".join(seq))
    return gen


# ---- URIs -----------------------------------------------------------------
URIS = [("http://a.example/", 1), ("https://b.example/p?q=1&r=2#f", 1), ("ftp://c.example/f", 1), ("www.d.example", 1), ("www.d.example/p", 1), ("ftp.e.example/x", 1), ("http://10.1.2.3:80/x", 1), ("http://user@f.example/", 1), ("http://g.example/%20x", 1),
        ("HTTP", 0), ("xwww.no.example", 0), ("http:/no", 0), ("mailto:a@b.example", 0), ("xhttp://no.example/", 0), (" ", 0), ("\n", 0), ("<", 0), ('"', 0), (">", 0)]


def run_uris(case, rec):
    text = "".join(t for t, u in case)
    uris, prev = [], " "
    # a token not separated from the last one would be another URI
    found = []
    cur, start = None, None
    for t, u in case:
        if t in (" ", "\n", "<", '"', ">"):
            prev = t
            continue
        if prev not in (" ", "\n", "<", '"', ">"):
            return
        if u:
            found.append(t)
        prev = t
    if "<" in text or ">" in text:
        body = None
    for ctype, cte in (("text/plain", None), ("text/x-y", "base64"), ("text/html", "base64")):
        if ctype == "text/html":
            if "<" in text:
                continue
            verify(rec, "uri-html", Leaf(ctype, cte, b64(text.encode()), text, body="[\\s\\S]*", uris=found))
        else:
            verify(rec, "uri", Leaf(ctype, cte, text if cte is None else b64(text.encode()), text, uris=found))


def uri_cases(tier):
    def gen():
        for n in range(1, 4 if tier == "quick" else 5):
            for seq in itertools.product(URIS, repeat=n):
                ok = all(a[0] in " \n<>\"" or b[0] in " \n<>\"" for a, b in zip(seq, seq[1:]))
                if ok and any(u for t, u in seq):
                    yield seq
    return gen


def spaces(tier):
    from mc.core import Space
    return [
        Space("leaves", itertools.product(CHARSETS, TYPES, ENCODINGS), run_leaf, "charset x type x encoding x content x line ends", chunk=1),
        Space("trees", tree_cases(tier)(), run_tree, "MIME trees", chunk=1),
        Space("subjects", itertools.chain.from_iterable(itertools.product(SUBJECTS, repeat=n) for n in range(0, 3 if tier == "quick" else 4)), run_subjects, "Subject headers"),
        Space("mimeheaders", itertools.product(range(8), repeat=len(MIMEHEADERS)) if tier == "thorough" else itertools.product((0, 1, 2, 4, 7), repeat=len(MIMEHEADERS)), run_mime, "headers x the parts that have them"),
        Space("html", html_cases(tier)(), run_html, "HTML documents", chunk=50),
        Space("bytes", byte_cases(tier)(), run_bytes, "byte strings x charset", chunk=20),
        Space("uris", uri_cases(tier)(), run_uris, "texts out of URI tokens", chunk=20),
    ]
