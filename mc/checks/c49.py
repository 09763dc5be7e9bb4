"""C49: the MIME rules describe the parts of the message."""
import base64
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of MIME trees (containers x kinds of parts x encodings) x bounds of the rules x histories on the real plugin, against an independent model of each rule over the tree"
LEVEL_NOTE = "All trees of a container with up to 2 parts of 24 kinds (3 of 12 kinds in thorough), all nestings of two containers around up to 3 parts of 6 kinds, all texts of up to 5 pieces (6 in thorough) against the counted characters, all lengths and ratios around the bounds of the rules, all charsets x locales x shares of characters, all histories of 2 messages (3 in thorough)."
ASSUMPTIONS = ["containers are not encoded themselves", "the rules mime_missing_boundary, mime_qp_long_line, mime_ascii_text_illegal and mime_bad_iso_charset are not judged"]

RATIOS = [(0, 0.5), (0.5, 1), (1, 1.5), (1.5, 9), (0.25, 0.26)]
SHARES = [(0.01, None), (0.1, None), (0.2, 0.5), (0.5, 1)]
LENGTHS = [(1, None), (8, 8), (8, 76), (77, 200), (76, 76)]
CONF = """loadplugin oa.plugins.mime_eval.MIMEEval
body TEXT /one/
body HTML eval:check_for_mime_html()
body HTMLONLY eval:check_for_mime_html_only()
body MA eval:check_ma_non_text()
body TRUNC eval:check_msg_parse_flags("truncated_headers")
body EPI eval:check_msg_parse_flags("mime_epilogue_exists")
body NOHEAD eval:check_msg_parse_flags("missing_mime_headers")
body FAR eval:check_for_faraway_charset()
"""
for name in ("base64_count", "body_html_count", "body_text_count", "multipart_alternative", "qp_count"):
    CONF += 'body C_%s eval:check_for_mime("mime_%s")\n' % (name, name)
for n, (a, b) in enumerate(RATIOS):
    CONF += "body R%d eval:check_mime_multipart_ratio('%s', '%s')\n" % (n, a, b)
for n, (a, b) in enumerate(SHARES):
    CONF += "body Q%d eval:check_qp_ratio(%s)\nbody U%d eval:check_abundant_unicode_ratio(%s)\n" % (n, a if b is None else "%s, %s" % (a, b), n, a if b is None else "%s, %s" % (a, b))
for n, (a, b) in enumerate(LENGTHS):
    CONF += "body L%d eval:check_base64_length(%s)\n" % (n, a if b is None else "%d, %d" % (a, b))


class Part(object):
    def __init__(self, kind, text="", enc="", charset="", disp="", headers=True):
        self.kind, self.enc, self.charset, self.disp, self.headers = kind, enc, charset, disp, headers
        data = text.encode(charset or "ascii", "replace") if charset not in FAKE else text.encode("iso-8859-1")
        if enc.lower() == "base64":
            raw = base64.b64encode(data).decode()
            self.raw = "\n".join(raw[i:i + 76] for i in range(0, len(raw), 76))
        else:
            self.raw = text
        self.data, self.text = data, decode_qp(text) if enc.lower() == "quoted-printable" else text
        self.parts = ()

    def render(self):
        head = ""
        if self.headers:
            head = "Content-Type: %s%s\n" % (self.kind, "; charset=" + self.charset if self.charset else "")
            head += "Content-Transfer-Encoding: %s\n" % self.enc if self.enc else ""
            head += "Content-Disposition: %s\n" % self.disp if self.disp else ""
        return head + "\n" + self.raw


class Box(object):
    headers, enc, charset, disp = True, "", "", ""

    def __init__(self, kind, *parts, **options):
        self.kind, self.parts, self.epilogue = "multipart/" + kind, parts, options.get("epilogue", "")

    def render(self, mark="b"):
        text = "Content-Type: %s; boundary=\"%s\"\n\n" % (self.kind, mark)
        for n, p in enumerate(self.parts):
            text += "--%s\n%s\n" % (mark, p.render(mark + str(n)) if isinstance(p, Box) else p.render())
        return text + "--%s--\n" % mark + self.epilogue


FAKE = ("us-latin", "koi8-r", "gb2312", "iso-2022-jp", "tis-620", "x-unknown", "iso-8859-5", "big5")


def decode_qp(text):
    out, i = "", 0
    while i < len(text):
        if text[i] == "=" and text[i + 1:i + 3].strip():
            out += chr(int(text[i + 1:i + 3], 16))
            i += 3
        else:
            out += text[i]
            i += 1
    return out


def walk(part):
    yield part
    for p in part.parts:
        for q in walk(p):
            yield q


PRINTABLE = [c for c in range(33, 127) if c != ord("=")] + [9]


def expected(root, headers=(), locales=None):
    rules = set()
    parts = list(walk(root))
    leaves = [p for p in parts if isinstance(p, Part)]
    if any("one" in p.text for p in leaves if p.kind.startswith("text/")):
        rules.add("TEXT")
    html = [p for p in leaves if p.kind == "text/html"]
    plain = [p for p in leaves if p.kind == "text/plain"]
    if html:
        rules |= {"HTML", "C_body_html_count"}
    if html and not plain:
        rules.add("HTMLONLY")
    if plain:
        rules.add("C_body_text_count")
    boxes = [p for p in parts if p.kind == "multipart/alternative"]
    if boxes:
        rules.add("C_multipart_alternative")
    if any(not q.kind.startswith("text/") and q.kind not in ("multipart/related", "application/rtf") for p in boxes for q in p.parts):
        rules.add("MA")
    coded = [p for p in leaves if p.enc.lower() == "base64"]
    quoted = [p for p in leaves if p.enc.lower() == "quoted-printable"]
    if coded:
        rules.add("C_base64_count")
    if quoted:
        rules.add("C_qp_count")
    longest = max([len(l) for p in coded for l in p.raw.split("\n")] or [0])
    rules |= {"L%d" % n for n, (a, b) in enumerate(LENGTHS) if a <= longest and (b is None or longest <= b)}
    sizes = sum(len(p.text) for p in plain), sum(len(p.text) for p in html)
    ratio = sizes[0] / sizes[1] if all(sizes) else 1
    rules |= {"R%d" % n for n, (a, b) in enumerate(RATIOS) if a <= ratio < b}
    total = sum(len(p.raw) for p in quoted)
    hits = sum(1 for p in quoted for i in range(len(p.raw)) if p.raw[i] == "=" and p.raw[i + 1:i + 3].strip() and int(p.raw[i + 1:i + 3], 16) in PRINTABLE)
    share = hits / total if total else 0
    rules |= {"Q%d" % n for n, (a, b) in enumerate(SHARES) if a <= share and (b is None or share <= b)}
    entities = sum(1 for p in plain for x in p.text.split("&#x")[1:] if len(x) > 4 and x[4] == ";" and all(c in "0123456789ABCDEF" for c in x[:4]))
    share = entities / sizes[0] if sizes[0] else 0
    rules |= {"U%d" % n for n, (a, b) in enumerate(SHARES) if a <= share and (b is None or share <= b)}
    if any(len(k) > 256 or len(v) > 8192 for k, v in headers):
        rules.add("TRUNC")
    if getattr(root, "epilogue", ""):
        rules.add("EPI")
    if any(not p.headers for p in leaves if p is not root):
        rules.add("NOHEAD")
    return rules


_sets = {}


def ruleset(locales):
    if locales not in _sets:
        _sets[locales] = env.build(CONF + ("ok_locales %s\n" % locales if locales else ""))
    return _sets[locales]


def judge(rec, key, root, headers=(), locales="", far=False):
    rec.step()
    text = "Subject: x\nMIME-Version: 1.0\n" + "".join("%s: %s\n" % h for h in headers) + root.render()
    got = set(env.matched(env.check(ruleset(locales), text)))
    want = expected(root, headers)
    if any(q.kind in ("multipart/related", "application/rtf") for p in walk(root) if p.kind == "multipart/alternative" for q in p.parts):
        # whether these are text enough isn't judged
        got.discard("MA")
        want.discard("MA")
    if far:
        want.add("FAR")
    rec.check(key, sorted(got), sorted(want), mail=text, locales=locales)


def kinds(few=False):
    words = "one " * 6
    made = [
        Part("text/plain", words), Part("text/html", "<p>" + words + "</p>"), Part("text/plain", words, "base64"), Part("image/png", "\x01\x02\x03\x04", "base64"), Part("text/html", "<p>one</p>", "quoted-printable"), Part("application/rtf", "{}"),
        Part("text/plain", words, "quoted-printable", "utf-8"), Part("text/html", "<b>one</b>", "BASE64", "us-ascii"), Part("text/x-calendar", "one", "base64"), Part("text/plain", words * 9, "base64", "utf-8"), Part("message/delivery-status", ""), Part("text/plain", "two", headers=False),
        Part("text/plain", "six", "base64", "", "attachment"), Part("text/plain", "six", "base64", "", "attachment; filename=a.txt"), Part("text/plain", "six", "base64", "us-ascii", "inline"), Part("text/html", "<i>" + "x" * 100 + "</i>"), Part("text/plain", "=6F=6E=65=3D", "quoted-printable"), Part("text/plain", "caf=E9 =6F", "Quoted-Printable", "iso-8859-1"),
        Part("text/plain", "&#x0041;&#x00E9;one &#xZZZZ; &#41;"), Part("application/pdf", "%PDF", "base64", "", "attachment"), Part("application/octet-stream", "abc"), Part("text/plain", "six", "base64", "us-latin"), Part("text/plain", "six", "base64", "cp367"), Part("text/plain", "six", "base64", "ascii", "inlined"),
    ]
    made = [p for p in made if p.kind != "message/delivery-status"] + [Part("audio/wav", "abc")]
    assert len(made) == 24
    return made[:12] if few else made


BOXES = ("mixed", "alternative", "related", "report")


def run_trees(case, rec):
    box, numbers, few = case
    rec.state(case)
    pool = kinds(few)
    parts = [pool[n] for n in numbers]
    if box is None:
        judge(rec, "single", parts[0])
    else:
        judge(rec, "trees", Box(box, *parts))
        judge(rec, "trees/epilogue", Box(box, *parts, epilogue="more\n"))
    rec.trace()


def run_nested(case, rec):
    outer, inner, numbers = case
    rec.state(case)
    pool = kinds(True)[:6]
    parts = [pool[n] for n in numbers]
    for k in range(len(parts)):
        judge(rec, "nested", Box(outer, *(parts[:k] + [Box(inner, *parts[k:])])))
        judge(rec, "nested/first", Box(outer, *([Box(inner, *parts[k:])] + parts[:k])))
    rec.trace()


PIECES = ("=41", "=3D", "=0A", "a", "&#x0041;", "&#x41;", "=7E", "=E9")


def run_texts(case, rec):
    rec.state(case)
    text = "".join(case)
    for enc, charset in (("quoted-printable", "iso-8859-1"), ("", "")):
        one = Part("text/plain", text, enc, charset)
        judge(rec, "texts", one)
        judge(rec, "texts/two", Box("mixed", one, Part("text/plain", "=41", enc, charset)))
    rec.trace()


def run_sizes(case, rec):
    rec.state(case)
    a, b = case
    judge(rec, "sizes", Box("alternative", Part("text/plain", "x" * a), Part("text/html", "y" * b)))
    judge(rec, "sizes/split", Box("mixed", Part("text/plain", "x" * (a - 1)), Part("text/html", "y" * b), Part("text/plain", "x")))
    for x, y in ((a * 6, b * 6), (b, a)):
        judge(rec, "sizes/base64", Box("mixed", Part("text/plain", "x" * x, "base64"), Part("image/png", "y" * y, "base64")))
    rec.trace()


def run_headers(case, rec):
    rec.state(case)
    key, value = case
    judge(rec, "headers", Part("text/plain", "one"), [("X" * key, "v" * value)])
    judge(rec, "headers/second", Part("text/plain", "one"), [("X-A", "a"), ("X" * key, "v" * value), ("X-A", "b")])
    rec.trace()


OK = {"ru": ("koi8-r", "iso-8859-5"), "zh": ("gb2312", "big5"), "th": ("tis-620",), "en": (), "ja": ("iso-2022-jp",)}


def run_locales(case, rec):
    locales, charset, low, high = case
    rec.state(case)
    text = "a" * low + "\xe4" * high
    part = Part("text/plain", text, "base64", charset)
    fine = locales == "all" or charset in ("iso-8859-5", "x-unknown") or any(charset in OK[l] for l in locales.split())
    many = high >= low and high > 3
    judge(rec, "locales", part, (), locales, many and not fine)
    judge(rec, "locales/two", Box("mixed", Part("text/plain", "one"), part), (), locales, many and not fine)
    rec.trace()


def run_histories(case, rec):
    rec.state(case)
    pool = kinds()
    mails = [Part("text/plain", "one"), Box("alternative", pool[0], pool[3], epilogue="x\n"), Box("mixed", pool[9], pool[1]), Box("mixed", pool[16], pool[18]), Part("text/html", "<p>one</p>", "base64"), Box("mixed", pool[10], pool[5])]
    for n in case:
        judge(rec, "histories", mails[n], [("X", "v" * 9000)] if n == 2 else ())
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    trees = [(None, (n,), False) for n in range(24)] + [(b, l, False) for b in BOXES for k in (1, 2) for l in itertools.product(range(24), repeat=k)]
    trees += [(b, l, True) for b in BOXES[:2] for l in itertools.product(range(12), repeat=3) if deep]
    nested = [(a, b, l) for a in BOXES[:3] for b in BOXES[:3] for k in ((1, 2, 3) if deep else (1, 2, 3)) for l in itertools.product(range(6), repeat=k)]
    texts = [t for n in range(1, 6 if deep else 5) for t in itertools.product(PIECES, repeat=n)]
    return [
        Space("trees", trees, run_trees, "containers of parts", chunk=20),
        Space("nested", nested, run_nested, "nested containers", chunk=20),
        Space("texts", texts, run_texts, "the counted characters", chunk=40),
        Space("sizes", [(a, b) for a in range(1, 20) for b in range(1, 20)], run_sizes, "ratios and lengths", chunk=10),
        Space("headers", [(k, v) for k in (1, 255, 256, 257) for v in (1, 8191, 8192, 8193)], run_headers, "long headers", chunk=2),
        Space("locales", [(l, c, a, b) for l in ("all", "en", "ru", "zh th", "ja en", "ru zh th ja") for c in FAKE[1:] for a in range(0, 7) for b in range(0, 7)], run_locales, "charsets and locales", chunk=40),
        Space("histories", list(itertools.product(range(6), repeat=3 if deep else 2)), run_histories, "messages one after the other", chunk=6),
    ]
